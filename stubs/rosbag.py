"""Stand-in for rosbag; scripted by the checks that need it."""
