"""Framed messages over a unix socket (used by both sides of the simulator)."""
import pickle
import struct


class Gone(Exception):
    """The other side has closed the connection."""


def send(sock, obj):
    data = pickle.dumps(obj, 5)
    sock.sendall(struct.pack("<I", len(data)) + data)


def _exact(sock, n):
    buf = bytearray()
    while len(buf) < n:
        part = sock.recv(n - len(buf))
        if not part:
            raise Gone
        buf += part
    return bytes(buf)


def recv(sock):
    try:
        n, = struct.unpack("<I", _exact(sock, 4))
        return pickle.loads(_exact(sock, n))
    except ConnectionError:
        raise Gone from None
