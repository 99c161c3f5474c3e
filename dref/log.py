class _Quiet:
    def __getattr__(self, name):
        return lambda *a, **k: None


def get_logger(*a, **k):
    return _Quiet()
