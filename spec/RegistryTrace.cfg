SPECIFICATION LSpec
CONSTRAINT Accept
CONSTANTS InitOf <- RInit
          Apply <- RApply
