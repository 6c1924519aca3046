SPECIFICATION Spec
CONSTANTS
  T = 4
  N = 2
  NIFS = {0, 1, 2, 4}
  PLAYLISTS = "pairs"
INVARIANTS NoInternalError Bracketing CursorMatches
