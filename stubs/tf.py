"""Stand-in for the ROS tf module: only importable, never used by the checks."""


class LookupException(Exception):
  pass


class ConnectivityException(Exception):
  pass


class ExtrapolationException(Exception):
  pass
