LOG = []
ANSWER = {}
ERRS = {}


def reset(errs):
    LOG.clear()
    ANSWER.clear()
    ERRS.clear()
    ERRS.update(errs)
