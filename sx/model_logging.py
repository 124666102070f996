"""Model of the standard logging module: loggers, levels, propagation, filters, stream and file handlers.

Executed by the instrumenting loader, so messages may be symbolic; file access goes through the modelled open.
"""
import os
import sys
import time
import datetime as _dt

CRITICAL = FATAL = 50
ERROR = 40
WARNING = WARN = 30
INFO = 20
DEBUG = 10
NOTSET = 0
BASIC_FORMAT = "%(levelname)s:%(name)s:%(message)s"
raiseExceptions = True
_names = {50: "CRITICAL", 40: "ERROR", 30: "WARNING", 20: "INFO", 10: "DEBUG", 0: "NOTSET"}
_levels = {"CRITICAL": 50, "FATAL": 50, "ERROR": 40, "WARN": 30, "WARNING": 30, "INFO": 20, "DEBUG": 10, "NOTSET": 0}


def getLevelName(level):
    if level in _names:
        return _names[level]
    if level in _levels:
        return _levels[level]
    return "Level %s" % level


def addLevelName(level, name):
    _names[level] = name
    _levels[name] = level


def getLevelNamesMapping():
    return dict(_levels)


def _check(level):
    if isinstance(level, int):
        return level
    if isinstance(level, str):
        if level not in _levels:
            raise ValueError("Unknown level: %r" % (level,))
        return _levels[level]
    raise TypeError("Level not an integer or a valid string: %r" % (level,))


class LogRecord(object):
    def __init__(self, name, level, msg, args, exc_info=None):
        if len(args) == 1 and isinstance(args[0], dict) and args[0]:
            args = args[0]
        self.name, self.msg, self.args = name, msg, args
        self.levelname, self.levelno = getLevelName(level), level
        self.pathname, self.filename, self.module, self.lineno, self.funcName = "(unknown file)", "(unknown file)", "(unknown file)", 0, "(unknown function)"
        self.exc_info, self.exc_text, self.stack_info = exc_info, None, None
        self.created = time.time()
        self.msecs = 0
        self.relativeCreated = 0
        self.thread, self.threadName, self.processName, self.taskName = 1, "MainThread", "MainProcess", None
        self.process = os.getpid()

    def getMessage(self):
        msg = str(self.msg)
        if self.args:
            msg = msg % self.args
        return msg


class Formatter(object):
    converter = staticmethod(time.localtime)
    default_time_format = "%Y-%m-%d %H:%M:%S"
    default_msec_format = "%s,%03d"

    def __init__(self, fmt=None, datefmt=None, style="%", validate=True, defaults=None):
        self._fmt = fmt or "%(message)s"
        self.datefmt = datefmt
        self.style = style

    def formatTime(self, record, datefmt=None):
        t = _dt.datetime.fromtimestamp(record.created)
        if datefmt:
            return t.strftime(datefmt)
        return t.strftime(self.default_time_format) + ",000"

    def formatException(self, ei):
        return "Traceback (most recent call last):\n  ...\n" + ei[0].__name__ + ": " + str(ei[1])

    def usesTime(self):
        return "%(asctime)" in self._fmt or "{asctime" in self._fmt

    def formatMessage(self, record):
        if self.style == "{":
            return self._fmt.format(**record.__dict__)
        return self._fmt % record.__dict__

    def format(self, record):
        record.message = record.getMessage()
        if self.usesTime():
            record.asctime = self.formatTime(record, self.datefmt)
        s = self.formatMessage(record)
        if record.exc_info:
            if not record.exc_text:
                record.exc_text = self.formatException(record.exc_info)
        if record.exc_text:
            s = s + "\n" + record.exc_text
        return s


class Filter(object):
    def __init__(self, name=""):
        self.name = name

    def filter(self, record):
        return not self.name or record.name == self.name or record.name.startswith(self.name + ".")


class Filterer(object):
    def __init__(self):
        self.filters = []

    def addFilter(self, f):
        if not any(x is f for x in self.filters):
            self.filters.append(f)

    def removeFilter(self, f):
        self.filters = [x for x in self.filters if x is not f]

    def filter(self, record):
        for f in self.filters:
            r = f.filter(record) if hasattr(f, "filter") else f(record)
            if not r:
                return False
        return True


class Handler(Filterer):
    def __init__(self, level=NOTSET):
        Filterer.__init__(self)
        self.level = _check(level)
        self.formatter = None
        self.name = None

    def setLevel(self, level):
        self.level = _check(level)

    def setFormatter(self, fmt):
        self.formatter = fmt

    def format(self, record):
        return (self.formatter or Formatter()).format(record)

    def emit(self, record):
        raise NotImplementedError("emit must be implemented by Handler subclasses")

    def handle(self, record):
        if self.filter(record):
            self.emit(record)
            return True
        return False

    def acquire(self):
        pass

    def release(self):
        pass

    def flush(self):
        pass

    def close(self):
        pass

    def handleError(self, record):
        sys.stderr.write("--- Logging error ---\n")


class NullHandler(Handler):
    def emit(self, record):
        pass


class StreamHandler(Handler):
    terminator = "\n"

    def __init__(self, stream=None):
        Handler.__init__(self)
        self.stream = sys.stderr if stream is None else stream

    def flush(self):
        if self.stream and hasattr(self.stream, "flush"):
            self.stream.flush()

    def setStream(self, stream):
        old, self.stream = self.stream, stream
        return old

    def emit(self, record):
        try:
            msg = self.format(record)
            self.stream.write(msg + self.terminator)
            self.flush()
        except Exception:
            self.handleError(record)


class FileHandler(StreamHandler):
    def __init__(self, filename, mode="a", encoding=None, delay=False, errors=None):
        filename = os.fspath(filename)
        self.baseFilename = os.path.abspath(filename)
        self.mode, self.encoding, self.errors, self.delay = mode, encoding, errors, delay
        if delay:
            Handler.__init__(self)
            self.stream = None
        else:
            StreamHandler.__init__(self, self._open())

    def _open(self):
        return open(self.baseFilename, self.mode, encoding=self.encoding, errors=self.errors)

    def close(self):
        if self.stream:
            self.flush()
            self.stream.close()
        self.stream = None

    def emit(self, record):
        if self.stream is None:
            self.stream = self._open()
        StreamHandler.emit(self, record)


class Logger(Filterer):
    def __init__(self, name, level=NOTSET):
        Filterer.__init__(self)
        self.name, self.level = name, _check(level)
        self.parent, self.propagate, self.handlers, self.disabled = None, True, [], False

    def setLevel(self, level):
        self.level = _check(level)

    def getEffectiveLevel(self):
        log = self
        while log:
            if log.level:
                return log.level
            log = log.parent
        return NOTSET

    def isEnabledFor(self, level):
        return not self.disabled and level > _state["disable"] and level >= self.getEffectiveLevel()

    def getChild(self, suffix):
        return getLogger(suffix if self is root else self.name + "." + suffix)

    def addHandler(self, h):
        if not any(x is h for x in self.handlers):
            self.handlers.append(h)

    def removeHandler(self, h):
        self.handlers = [x for x in self.handlers if x is not h]

    def hasHandlers(self):
        log = self
        while log:
            if log.handlers:
                return True
            if not log.propagate:
                return False
            log = log.parent
        return False

    def _log(self, level, msg, args, exc_info=None, extra=None, stack_info=False, stacklevel=1):
        if exc_info:
            if isinstance(exc_info, BaseException):
                exc_info = (type(exc_info), exc_info, None)
            elif not isinstance(exc_info, tuple):
                exc_info = sys.exc_info()
            if exc_info[0] is None:
                exc_info = None
        record = LogRecord(self.name, level, msg, args, exc_info)
        for k, v in (extra or {}).items():
            setattr(record, k, v)
        self.handle(record)

    def handle(self, record):
        if not self.disabled and self.filter(record):
            self.callHandlers(record)

    def callHandlers(self, record):
        log, found = self, 0
        while log:
            for h in list(log.handlers):
                found += 1
                if record.levelno >= h.level:
                    h.handle(record)
            log = log.parent if log.propagate else None
        if not found and record.levelno >= WARNING:
            sys.stderr.write(record.getMessage() + "\n")

    def debug(self, msg, *args, **kw):
        if self.isEnabledFor(DEBUG):
            self._log(DEBUG, msg, args, **kw)

    def info(self, msg, *args, **kw):
        if self.isEnabledFor(INFO):
            self._log(INFO, msg, args, **kw)

    def warning(self, msg, *args, **kw):
        if self.isEnabledFor(WARNING):
            self._log(WARNING, msg, args, **kw)

    warn = warning

    def error(self, msg, *args, **kw):
        if self.isEnabledFor(ERROR):
            self._log(ERROR, msg, args, **kw)

    def exception(self, msg, *args, **kw):
        if "exc_info" not in kw:
            kw["exc_info"] = True
        self.error(msg, *args, **kw)

    def critical(self, msg, *args, **kw):
        if self.isEnabledFor(CRITICAL):
            self._log(CRITICAL, msg, args, **kw)

    fatal = critical

    def log(self, level, msg, *args, **kw):
        if self.isEnabledFor(level):
            self._log(level, msg, args, **kw)


class LoggerAdapter(object):
    def __init__(self, logger, extra=None):
        self.logger, self.extra = logger, extra

    def __getattr__(self, name):
        return getattr(self.logger, name)


root = Logger("root", WARNING)
_loggers = {}
_state = {"disable": 0}


def getLogger(name=None):
    if not name or name == "root":
        return root
    if name not in _loggers:
        log = _loggers[name] = Logger(name)
        up, log.parent = name, root
        while "." in up:
            up = up.rpartition(".")[0]
            if up in _loggers:
                log.parent = _loggers[up]
                break
        for n, other in _loggers.items():
            if n.startswith(name + ".") and len(other.parent.name if other.parent is not root else "") < len(name):
                other.parent = log
    return _loggers[name]


def disable(level=CRITICAL):
    _state["disable"] = _check(level)


def basicConfig(**kw):
    if kw.pop("force", False):
        root.handlers = []
    if not root.handlers:
        handlers = kw.get("handlers")
        if handlers is None:
            if kw.get("filename"):
                handlers = [FileHandler(kw["filename"], kw.get("filemode", "a"), encoding=kw.get("encoding"))]
            else:
                handlers = [StreamHandler(kw.get("stream"))]
        for h in handlers:
            if h.formatter is None:
                h.setFormatter(Formatter(kw.get("format", BASIC_FORMAT), kw.get("datefmt")))
            root.addHandler(h)
        if kw.get("level") is not None:
            root.setLevel(kw["level"])


def debug(msg, *args, **kw):
    root.debug(msg, *args, **kw)


def info(msg, *args, **kw):
    root.info(msg, *args, **kw)


def warning(msg, *args, **kw):
    root.warning(msg, *args, **kw)


def error(msg, *args, **kw):
    root.error(msg, *args, **kw)


def exception(msg, *args, **kw):
    root.exception(msg, *args, **kw)


def critical(msg, *args, **kw):
    root.critical(msg, *args, **kw)


def log(level, msg, *args, **kw):
    root.log(level, msg, *args, **kw)


def captureWarnings(capture):
    pass


def shutdown():
    pass
