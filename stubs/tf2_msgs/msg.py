class TFMessage(object):
  pass
