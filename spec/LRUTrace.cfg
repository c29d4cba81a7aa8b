SPECIFICATION LSpec
CONSTRAINT Accept
CONSTANTS InitOf <- LRUInit
          Apply <- LRUApply
