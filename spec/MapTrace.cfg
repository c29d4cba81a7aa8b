SPECIFICATION LSpec
CONSTRAINT Accept
CONSTANTS InitOf <- MapInit
          Apply <- MapApply
