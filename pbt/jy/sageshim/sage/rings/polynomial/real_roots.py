__all__ = []
