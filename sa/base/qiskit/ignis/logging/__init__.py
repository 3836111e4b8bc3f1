from .ignis_logging import IgnisLogger, IgnisLogging, IgnisLogReader
