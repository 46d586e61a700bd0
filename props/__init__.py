from .meta import META
REGISTRY = {k: v["module"] for k, v in META.items()}
