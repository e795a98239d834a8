"""Library classes given as code of their own: what they compute follows from interpreting it."""
import sa_re


class BytesIO:
    def __init__(self, initial_bytes=b""):
        self._data = bytes(initial_bytes)
        self._pos = 0

    def read(self, size=-1):
        if size is None or size < 0:
            out = self._data[self._pos:]
        else:
            out = self._data[self._pos:self._pos + size]
        self._pos = self._pos + len(out)
        return out

    read1 = read

    def seek(self, offset, whence=0):
        if whence == 1:
            offset = self._pos + offset
        elif whence == 2:
            offset = len(self._data) + offset
        if offset < 0:
            raise ValueError("negative seek value")
        self._pos = offset
        return offset

    def tell(self):
        return self._pos

    def write(self, data):
        data = bytes(data)
        if self._pos != len(self._data):
            sa_re.unsupported("write inside the data of a BytesIO")
        self._data = self._data + data
        self._pos = self._pos + len(data)
        return len(data)

    def getvalue(self):
        return self._data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None


class Match:
    def __init__(self, text, groups):
        self._text = text
        self._groups = groups

    def group(self, *which):
        if len(which) > 1:
            return tuple(self.group(i) for i in which)
        i = which[0] if which else 0
        if i == 0:
            return self._text
        lo, hi = self._groups[i - 1]
        return self._text[lo:hi]

    def __getitem__(self, i):
        return self.group(i)

    def groups(self):
        return tuple(self._text[lo:hi] for lo, hi in self._groups)


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self._items, self._groups = sa_re.parse(pattern, flags)

    def sub(self, repl, string, count=0):
        if count:
            sa_re.unsupported("a limited number of substitutions")
        if not callable(repl):
            sa_re.plain(repl)
        string = sa_re.subject(string)
        if len(self._items) == 1:
            return self._one(repl, string)
        if len(self._items) == 2:
            return self._two(repl, string)
        sa_re.unsupported("this pattern")

    def _one(self, repl, string):
        (values,) = self._items
        out = bytearray()
        for byte in string:
            if byte in values:
                out += repl(Match(bytes([byte]), self._groups)) if callable(repl) else repl
            else:
                out.append(byte)
        return bytes(out)

    def _two(self, repl, string):
        first, second = self._items
        rest = bytearray(string)
        out = bytearray()
        while rest:
            byte = rest.pop(0)
            if byte in first and rest and rest[0] in second:
                out += repl(Match(bytes([byte, rest.pop(0)]), self._groups)) if callable(repl) else repl
            else:
                out.append(byte)
        return bytes(out)


def compile(pattern, flags=0):
    return pattern if isinstance(pattern, Pattern) else Pattern(pattern, flags)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)
