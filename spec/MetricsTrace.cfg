SPECIFICATION LSpec
CONSTRAINT Accept
CONSTANTS InitOf <- MInit
          Apply <- MApply
