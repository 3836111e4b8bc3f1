import logging
import logging.handlers
import logging.config
from logging import Logger
import os
import glob
from datetime import datetime
import re
from typing import List, Union, Optional

class IgnisLogger(logging.getLoggerClass()):

    def __init__(self, name: str, level: Optional[int]=logging.NOTSET):
        Logger.__init__(self, name, level)
        self._file_logging_enabled = False
        self._file_handler = None
        self._stream_handler = None
        self._conf_file_exists = False
        self._warning_omitted = False

    def configure(self, sh: logging.StreamHandler, conf_file_exists: bool):
        if self._stream_handler is not None:
            self.removeHandler(self._stream_handler)
        self._stream_handler = sh
        self.addHandler(sh)
        self._conf_file_exists = conf_file_exists

    def log_to_file(self, **kwargs):
        if not self._file_logging_enabled:
            if not self._warning_omitted:
                msg = 'File logging is disabled'
                if not self._conf_file_exists:
                    msg += ': no config file'
                logger = logging.getLogger(__name__)
                logger.warning(msg)
                self._warning_omitted = True
            return
        if self._file_handler is None:
            self._file_handler = IgnisLogging().get_file_handler()
        assert self._file_handler is not None, 'file_handler is not set'
        logstr = ''
        for k, v in kwargs.items():
            logstr += "'{}':'{}' ".format(k, v)
        Logger.removeHandler(self, self._stream_handler)
        Logger.addHandler(self, self._file_handler)
        Logger.log(self, 100, logstr)
        Logger.removeHandler(self, self._file_handler)
        Logger.addHandler(self, self._stream_handler)

    def enable_file_logging(self):
        self._file_logging_enabled = True

    def disable_file_logging(self):
        self._file_logging_enabled = False

class IgnisLogging:
    _instance = None
    _file_logging_enabled = False
    _log_file = None
    _max_bytes = 0
    _max_rotations = 0
    _log_label = 'ignis_logging'
    _default_datefmt = '%Y/%m/%d %H:%M:%S'
    _config_file_exists = False

    def __new__(cls, log_config_path=None):
        if IgnisLogging._instance is None:
            IgnisLogging._instance = object.__new__(cls)
            IgnisLogging._initialize(log_config_path)
        return IgnisLogging._instance

    @staticmethod
    def _load_config_file(log_config_path=None):
        if not log_config_path:
            config_file_path = os.path.join(os.path.expanduser('~'), '.qiskit', 'logging.yaml')
        else:
            config_file_path = log_config_path
        config = dict()
        if os.path.exists(config_file_path):
            with open(config_file_path, 'r') as log_file:
                for line in log_file:
                    line = line[:line.find('#') if '#' in line else None]
                    line = line.split(':', 1)
                    if len(line) < 2:
                        continue
                    config[line[0].strip().lower()] = line[1].strip()
            IgnisLogging._config_file_exists = True
        return config

    @staticmethod
    def _initialize(log_config_path):
        logging.setLoggerClass(IgnisLogger)
        log_config = IgnisLogging._load_config_file(log_config_path)
        IgnisLogging._file_logging_enabled = log_config.get('file_logging', '').lower() == 'true'
        IgnisLogging._log_file = log_config.get('log_file') if log_config.get('log_file') is not None else 'ignis.log'
        max_size = log_config.get('max_size')
        IgnisLogging._max_bytes = int(max_size) if max_size is not None and max_size.isdigit() else 0
        max_rotations = log_config.get('max_rotations')
        IgnisLogging._max_rotations = int(max_rotations) if max_rotations is not None and max_rotations.isdigit() else 0

    @staticmethod
    def _reset_to_defaults(name):
        if IgnisLogging._instance is not None:
            IgnisLogging._instance = None
            IgnisLogging._file_logging_enabled = False
            IgnisLogging._log_file = None
            IgnisLogging._config_file_exists = False
            logger = logging.getLogger(name)
            if isinstance(logger, IgnisLogger):
                logger._file_handler = None
                logger._file_logging_enabled = False
                logger.removeHandler(logger._stream_handler)

    def get_logger(self, name: str) -> IgnisLogger:
        logger = logging.getLogger(name)
        assert isinstance(logger, IgnisLogger), 'IgnisLogger class was not registered'
        self._configure_logger(logger)
        return logger

    def get_file_handler(self):
        fh = logging.handlers.RotatingFileHandler(IgnisLogging._log_file, maxBytes=IgnisLogging._max_bytes, backupCount=IgnisLogging._max_rotations)
        formatter = logging.Formatter('%(asctime)s {} %(message)s'.format(IgnisLogging._log_label), datefmt=IgnisLogging._default_datefmt)
        fh.setFormatter(formatter)
        return fh

    def _configure_logger(self, logger):
        sh = logging.StreamHandler()
        sh.setLevel(logging.NOTSET)
        stream_fmt = logging.Formatter('%(levelname)s: %(name)s - %(message)s')
        sh.setFormatter(stream_fmt)
        logger.configure(sh, IgnisLogging._config_file_exists)
        if IgnisLogging._file_logging_enabled:
            logger.enable_file_logging()

    def get_log_file(self) -> str:
        return IgnisLogging._log_file

    def default_datetime_fmt(self) -> str:
        return IgnisLogging._default_datefmt

class IgnisLogReader:

    def get_log_files(self) -> List[str]:
        file_name = IgnisLogging().get_log_file()
        search_path = glob.escape(os.path.abspath(file_name)) + '*'
        files = sorted(glob.glob(search_path), key=os.path.getmtime)
        result = list()
        m = re.compile(re.escape(os.path.abspath(file_name)) + '(\\.\\d+)?$')
        for f in files:
            if m.match(f):
                result.append(f)
        return result

    def read_values(self, log_files: Optional[List[str]]=None, keys: Optional[List[str]]=None, from_datetime: Optional[str]=None, from_datetime_format: Optional[Union[str, datetime]]=None, to_datetime: Optional[str]=None, to_datetime_format: Optional[Union[str, datetime]]=None) -> List[List[str]]:
        if log_files is not None:
            files = [log_files] if isinstance(log_files, str) else log_files
        else:
            files = self.get_log_files()
        retrieved_date = list()
        for file in files:
            with open(file, 'r') as f:
                for line in f:
                    terms = line.split(maxsplit=3)
                    date_time = terms[0:2]
                    dt_filterd = self._filter_by_datetime(date_time, from_datetime, from_datetime_format, to_datetime, to_datetime_format)
                    if dt_filterd:
                        continue
                    key_values = re.split("(?<=')\\s+(?=')", terms[3].rstrip()) if len(terms) > 3 else []
                    if keys is not None:
                        key_values = self._filter_keys(key_values, keys)
                    if not key_values:
                        continue
                    retrieved_date.append(date_time + key_values)
        return retrieved_date

    def _filter_keys(self, key_values, keys):
        result = list()
        assert isinstance(key_values, list), 'key_values is not a list'
        for kv in key_values:
            if kv.split(':')[0].strip("'") in keys:
                result.append(kv)
        return result

    def _filter_by_datetime(self, row_datetime, from_dt, from_dt_fmt, to_dt, to_dt_fmt):
        if from_dt is not None and (not isinstance(from_dt, datetime)):
            try:
                if from_dt_fmt is None:
                    from_dt_fmt = IgnisLogging().default_datetime_fmt()
                from_dt = datetime.strptime(from_dt, from_dt_fmt)
            except ValueError as ve:
                raise ve
        if to_dt is not None and (not isinstance(to_dt, datetime)):
            try:
                if to_dt_fmt is None:
                    to_dt_fmt = IgnisLogging().default_datetime_fmt()
                to_dt = datetime.strptime(to_dt, to_dt_fmt)
            except ValueError as ve:
                raise ve
        if from_dt is None and to_dt is None:
            return False
        row_datetime = datetime.strptime('%s %s' % (row_datetime[0], row_datetime[1]), IgnisLogging().default_datetime_fmt())
        if from_dt is not None:
            if row_datetime < from_dt:
                return True
        if to_dt is not None:
            if row_datetime > to_dt:
                return True
        return False
