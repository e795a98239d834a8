"""Reference definitions, written from the protocol description; read by the same interpreter as the analysed code."""


def lrc(data):
    r = 0
    for b in data:
        r = r ^ b
    return r


def checksum(data):
    r = 0
    for b in data:
        r = (r + b) % 256
    return r


def drc(data):
    r = 0
    for b in data:
        r = (((r << 1) & 0xFF) | (r >> 7)) ^ b
    return r


def eight_steps(r):
    for _ in range(8):
        if r & 1:
            r = (r >> 1) ^ 0xA001
        else:
            r = r >> 1
    return r


REMAINDERS = [eight_steps(i) for i in range(256)]


def crc16(data):
    r = 0xFFFF
    for b in data:
        r = (r >> 8) ^ REMAINDERS[(r ^ b) & 0xFF]
    return ((r & 0xFF) << 8) | (r >> 8)


# ------------------------------------------------------------------ frames

SERVICES = (0x64, 0x65, 0x67, 0x7B, 0x68, 0x7C, 0x6C, 0x70, 0x71, 0x77, 0x79, 0x87, 0x91, 0x7D)


def frame(kind, service, d1, d2, s1, s2, payload):
    body = (
        b"\xfe" + bytes([kind, service]) + (len(payload) + 15).to_bytes(2, "little")
        + d1.to_bytes(2, "little") + bytes([d2]) + s1.to_bytes(2, "little") + bytes([s2]) + payload
    )
    return b"\x02" + body + bytes([lrc(body), checksum(body), drc(body)]) + b"\x0d"


def acceptable(kind, data):
    """True when every acceptance condition holds; ValueError otherwise"""
    n = len(data)
    if n < 7:
        raise ValueError
    if data[0] != 0x02 or data[1] != 0xFE or data[2] != kind or data[n - 1] != 0x0D:
        raise ValueError
    if data[3] not in SERVICES:
        raise ValueError
    if data[4] + 256 * data[5] != n - 1:
        raise ValueError
    covered = data[1:n - 4]
    if data[n - 4] != lrc(covered) or data[n - 3] != checksum(covered) or data[n - 2] != drc(covered):
        raise ValueError
    return n >= 16


# ------------------------------------------------------------------ escaping

def escape(data):
    if len(data) == 0 or data[len(data) - 1] != 0x0D:
        raise ValueError
    out = b""
    for b in data[:len(data) - 1]:
        if b == 0x0D:
            out += b"\x1b\x0e"
        elif b == 0x1B:
            out += b"\x1b\x1b"
        elif b == 0x8D:
            out += b"\x1b\x0f"
        else:
            out += bytes([b])
    return out + b"\x0d"


# ------------------------------------------------------------------ encryption envelope

from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes


def cbc_decrypt(key, data):
    d = Cipher(algorithms.AES(key), modes.CBC(key)).decryptor()
    return d.update(data) + d.finalize()


def open_envelope(kid, key, data):
    """(regular, payload) of an acceptable envelope; ValueError for a CRC mismatch, KeyError for anything else"""
    if len(data) < 3 or data[2] != kid or (len(data) - 3) % 16:
        raise KeyError
    body = cbc_decrypt(key, data[3:])
    n = len(body)
    if n < 2:
        raise KeyError
    if body[n - 2] * 256 + body[n - 1] != crc16(data[:3] + body[:n - 2]):
        raise ValueError
    size = data[0] + 256 * data[1]
    return size <= n - 2 and n - 2 - size <= 15, body[:size]


def envelope_head(kid, n):
    return n.to_bytes(2, "little") + bytes([kid])


def be16(x):
    return x.to_bytes(2, "big")


# ------------------------------------------------------------------ times, texts

from datetime import datetime, timedelta


def bcd(b):
    if (b >> 4) > 9 or (b & 15) > 9:
        raise ValueError
    return 10 * (b >> 4) + (b & 15)


def timestamp(data):
    if len(data) != 6:
        raise ValueError
    t = datetime(2000 + bcd(data[5]), bcd(data[4]), bcd(data[3]), bcd(data[2] & 0x3F), bcd(data[1]), bcd(data[0]))
    return t, (data[2] & 0x80) != 0, (data[2] & 0x40) != 0


def to_bcd(n):
    return bytes([16 * (n // 10) + n % 10])


def time_bytes(t):
    if t.year < 2000 or t.year > 2099:
        raise ValueError
    return to_bcd(t.second) + to_bcd(t.minute) + to_bcd(t.hour) + to_bcd(t.day) + to_bcd(t.month) + to_bcd(t.year - 2000)


def text(data):
    n = data.rfind(b"\x00")
    if n >= 0:
        data = data[:n]
    return data.replace(b"\x00", b" ").strip().decode("latin-1")


def ip(data):
    if len(data) != 4:
        raise ValueError
    return str(data[0]) + "." + str(data[1]) + "." + str(data[2]) + "." + str(data[3])


def digits(data):
    n = 0
    for b in data:
        n = 100 * n + bcd(b)
    return n


def le(data):
    return int.from_bytes(data, "little")


# ------------------------------------------------------------------ response payloads

def instantaneous(d):
    n = len(d)
    if n < 25:
        raise ValueError
    t, dst, has = timestamp(d[:6])
    return {
        "current_time": t, "is_dst": dst, "supports_dst": has, "data": d[6:n - 19], "data_access": d[n - 19],
        "status": d[n - 18:n - 10], "summary_status": d[n - 10:n - 2], "parameter_crc": d[n - 2:],
    }


def device_time(d):
    n = len(d)
    if n < 9:
        raise ValueError
    t, dst, has = timestamp(d[:6])
    return {"time": t, "is_dst": dst, "device_supports_dst": has, "data_access_result": d[6:7], "extra_data": d[7:n - 2]}


def parameters(d):
    if len(d) < 5:
        raise ValueError
    return {"object_number": d[0] + 256 * d[1], "object_amount": d[2] + 256 * d[3], "is_end": d[4] != 0, "data": d[5:]}


def archives(d):
    if len(d) < 5:
        raise ValueError
    if d[0] > 10:
        raise ValueError
    return {"archive": d[0], "oldest_record_id": le(d[1:5]), "data": d[5:]}


def nothing(d):
    return {}


def since_2000(data):
    return datetime(2000, 1, 1) + timedelta(seconds=le(data))


def call(d):
    if len(d) < 141:
        raise ValueError
    if d[54] > 3:
        raise ValueError
    return {
        "version": d[2], "guid": d[3:19], "station_id": text(d[19:36]), "sim_card_id": str(digits(d[36:46])),
        "modem_id": str(digits(d[46:54])), "protocol": d[54], "address_1": le(d[55:57]), "address_2": d[57],
        "signal_strength": d[58], "connections": le(d[59:63]), "last_connection_time": since_2000(d[63:67]),
        "connection_errors": le(d[67:71]), "last_connection_error_time": since_2000(d[71:75]), "resets": le(d[75:79]),
        "last_reset_time": since_2000(d[79:83]), "tcp_data": le(d[83:87]), "all_data": le(d[87:91]),
        "serial_number": str(le(d[91:95])), "ip_address": ip(d[95:99]), "last_modem_error_time": since_2000(d[99:103]),
        "last_modem_error": d[103], "modem_battery_capacity": le(d[104:106]), "modem_battery_voltage": le(d[106:108]),
        "firmware_version": text(d[108:141]),
    }


# ------------------------------------------------------------------ request payloads

def latin(password):
    return password.encode("latin-1")


def scada(count, length):
    return count.to_bytes(2, "little") + length.to_bytes(2, "little")


def by_id(archive, amount, record):
    return bytes([archive]) + record.to_bytes(4, "little") + amount.to_bytes(2, "little")


def by_time(archive, amount, t):
    return bytes([archive]) + amount.to_bytes(2, "little") + time_bytes(t)


def write_time(t):
    return time_bytes(t) + b"\x04"


# ------------------------------------------------------------------ parameter records

import struct


def single(data):
    return struct.unpack("<f", data)[0]


def double(data):
    return struct.unpack("<d", data)[0]


def rounded(data):
    return round(single(data), 7)


def hexa(data):
    return data.hex()


def flag(b, m):
    return (b & m) != 0


def part(b, m, s):
    return (b & m) >> s


# ------------------------------------------------------------------ parameter stream

TYPES = (0, 30, 31, 32, 33, 34, 35, 36, 45, 46, 47, 48, 49, 53, 54, 59, 61, 62, 65, 68, 69, 70, 72, 73, 74, 75, 77, 78, 79, 80, 81, 82, 83, 84, 85, 141)


def u16(n):
    return n.to_bytes(2, "little")


def records(data):
    """(type, body) of the records of a stream; ValueError for a malformed one, IndexError for an incomplete header"""
    out = []
    if len(data) == 0:
        raise ValueError
    while len(data) > 0:
        if len(data) < 3:
            raise IndexError
        n = data[0] + 256 * data[1]
        t = data[2]
        if t not in TYPES or n < 3 or n > len(data):
            raise ValueError
        out.append((t, data[3:n]))
        data = data[n:]
    return out


def shown(x):
    return f"value {x!r}, {x}"
