version = __version__ = "0.2.5"
