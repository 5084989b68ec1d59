def load_all():
    from . import field, body, hull, geodesy, conf, runs  # noqa: F401
