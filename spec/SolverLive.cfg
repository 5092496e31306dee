SPECIFICATION Spec
PROPERTY Terminates
