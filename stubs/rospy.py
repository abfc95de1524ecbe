"""Stand-in for rospy; scripted by the checks that need it."""
