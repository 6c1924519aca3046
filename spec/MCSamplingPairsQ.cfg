SPECIFICATION Spec
CONSTANTS
  T = 3
  N = 2
  NIFS = {0, 1, 3}
  PLAYLISTS = "pairs"
INVARIANTS NoInternalError Bracketing CursorMatches
