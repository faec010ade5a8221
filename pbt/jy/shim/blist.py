"""Pure-Python stand-in for the part of blist (a C extension, not installed here) that highschool_qe uses.

sortedset keeps its members in key order; members with equal keys are kept apart by ==, later ones after earlier ones."""


class sortedset(object):
    def __init__(self, iterable=(), key=None):
        self._key = key if key is not None else (lambda v: v)
        self._own = key
        self._items = []
        self._keys = []
        for v in iterable:
            self.add(v)

    def _make(self, items, keys):
        r = sortedset((), self._own)
        r._items = items
        r._keys = keys
        return r

    def _left(self, k):
        lo, hi = 0, len(self._keys)
        while lo < hi:
            mid = (lo + hi) // 2
            if self._keys[mid] < k:
                lo = mid + 1
            else:
                hi = mid
        return lo

    def _find(self, value):
        k = self._key(value)
        i = self._left(k)
        while i < len(self._items) and self._keys[i] == k:
            if self._items[i] == value:
                return i, k, True
            i += 1
        return i, k, False

    def add(self, value):
        i, k, found = self._find(value)
        if not found:
            self._items.insert(i, value)
            self._keys.insert(i, k)

    def update(self, *iterables):
        for it in iterables:
            for v in it:
                self.add(v)

    def remove(self, value):
        i, _, found = self._find(value)
        if not found:
            raise KeyError(value)
        del self._items[i]
        del self._keys[i]

    def discard(self, value):
        i, _, found = self._find(value)
        if found:
            del self._items[i]
            del self._keys[i]

    def pop(self, index=-1):
        v = self._items.pop(index)
        self._keys.pop(index)
        return v

    def copy(self):
        return self._make(list(self._items), list(self._keys))

    def clear(self):
        self._items, self._keys = [], []

    def __contains__(self, value):
        return self._find(value)[2]

    def __len__(self):
        return len(self._items)

    def __iter__(self):
        return iter(list(self._items))

    def __reversed__(self):
        return iter(list(reversed(self._items)))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._make(self._items[i], self._keys[i])
        return self._items[i]

    def index(self, value):
        i, _, found = self._find(value)
        if not found:
            raise ValueError(value)
        return i

    def bisect_left(self, value):
        return self._left(self._key(value))

    def __eq__(self, other):
        try:
            return len(self) == len(other) and all(v in self for v in other)
        except TypeError:
            return False

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return 'sortedset(%r)' % (self._items,)
