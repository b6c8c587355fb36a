"""The simulated host application around folx: its logging setup."""
import logging


class CountingHandler(logging.Handler):
    def __init__(self):
        super().__init__(level=1)
        self.n = 0
        self.fail = 0
        self.failed = []

    def emit(self, record):
        self.n += 1
        record.getMessage()
        if self.fail > 0:
            self.fail -= 1
            e = OSError(28, 'No space left on device [injected]')
            self.failed.append(e)
            # what a stream handler does when its stream fails
            try:
                raise e
            except OSError:
                self.handleError(record)


HANDLER = CountingHandler()
_log = logging.getLogger('folx')
_log.handlers[:] = [HANDLER]
_log.setLevel(1)
_log.propagate = False
logging.getLogger().setLevel(logging.WARNING)
logging.getLogger().handlers[:] = [logging.NullHandler()]
