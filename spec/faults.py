"""Fault codes of the PowerFlex 525, from the fault table of the drive's user manual (520-UM001)."""
CODES = (
    0, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 21, 29, 33, 38, 39, 40, 41, 42, 43, 48, 59, 63, 64, 70, 71, 72, 73,
    80, 81, 82, 83, 91, 94, 100, 101, 105, 106, 107, 109, 110, 111, 114, 122, 125, 126, 127)
