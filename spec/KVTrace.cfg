SPECIFICATION LSpec
CONSTRAINT Accept
CONSTANTS InitOf <- KInit
          Apply <- KApply
