SPECIFICATION LSpec
CONSTRAINT Accept
CONSTANTS InitOf <- AInit
          Apply <- AApply
