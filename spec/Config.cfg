SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emit
CONSTANTS
  Texts <- MCTexts
  Defaults <- MCDefaults
PROPERTIES Total
