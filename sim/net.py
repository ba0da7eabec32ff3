"""Simulated network: the magnetic-field web service.

The seam is `urllib.request.urlopen`, so the real client library runs; only the
transport is a stand-in.  The service's field is a known function of the
requested latitude, longitude, altitude and date, so a request for the wrong
place or date is visible in the values."""
import hashlib
import http.client
import io
import json
import socket
import urllib.error
import urllib.parse
import urllib.request

from . import clock

KINDS = [
    "ok", "refused", "dns", "timeout", "read_timeout", "reset", "incomplete",
    "http400", "http500", "http503", "truncated", "garbage", "badutf8", "empty",
    "nokey", "notdict", "partial", "nulls", "strings", "nan", "wrongshape", "nounits",
    "rejectdate", "slow",
]
INTERRUPTS = ["interrupt", "interrupt_read"]
UNUSABLE = {"truncated", "garbage", "badutf8", "empty", "nokey", "notdict",
            "partial", "nulls", "strings", "nan", "wrongshape", "nounits"}

SERVICE = None


def field(lat, lon, alt, date):
    """(total nT, inclination deg down, declination deg) published for a request."""
    h = hashlib.sha256(f"{lat}|{lon}|{alt}|{date}".encode()).digest()
    a, b, c = (int.from_bytes(h[i:i + 4], "big") / 2 ** 32 for i in (0, 4, 8))
    return round(20000 + 45000 * a, 3), round(-85 + 170 * b, 4), round(-30 + 60 * c, 4)


class Service:
    """script: list of kinds, one per request (last one repeats)."""

    def __init__(self, script, param=0, units="deg (down)"):
        self.script = list(script) or ["refused"]
        self.param = param
        self.units = units
        self.requests = []      # [kind, query dict, complete usable answer delivered?]
        self.fired = {}

    def handle(self, url):
        if not isinstance(url, str):
            url = url.full_url
        q = {k: v[0] for k, v in
             urllib.parse.parse_qs(urllib.parse.urlparse(url).query).items()}
        kind = self.script[min(len(self.requests), len(self.script) - 1)]
        rec = [kind, q, False]
        self.requests.append(rec)
        self.fired[kind] = self.fired.get(kind, 0) + 1
        f = field(q.get("latitude"), q.get("longitude"), q.get("altitude"), q.get("date"))
        body = {"geomagnetic-field-model-result": {
            "model": "wmm", "model_revision": "2025", "date": {"value": q.get("date")},
            "field-value": {
                "total-intensity": {"units": "nT", "value": f[0]},
                "inclination": {"units": self.units, "value": f[1]},
                "declination": {"units": "deg (east)", "value": f[2]},
            }}}
        fv = body["geomagnetic-field-model-result"]["field-value"]
        names = ["total-intensity", "inclination", "declination"]
        p = self.param
        if kind == "slow" and clock.ACTIVE is not None:
            clock.ACTIVE.advance(3600 * (1 + p % 40))
        if kind == "refused":
            raise urllib.error.URLError(ConnectionRefusedError(111, "refused"))
        if kind == "dns":
            raise urllib.error.URLError(socket.gaierror(-3, "name resolution"))
        if kind == "timeout":
            raise TimeoutError("timed out")
        if kind in ("http400", "http500", "http503"):
            raise urllib.error.HTTPError(url, int(kind[4:]), kind, {}, io.BytesIO(b"error text"))
        if kind == "rejectdate":
            d = q.get("date") or ""
            today = clock.ACTIVE.now.strftime("%Y-%m-%d") if clock.ACTIVE else ""
            if d and d != today:
                raise urllib.error.HTTPError(url, 400, "date", {}, io.BytesIO(b"date out of range"))
        if kind == "interrupt":
            raise KeyboardInterrupt("user interrupt during request")
        exc, raw = None, None
        if kind == "read_timeout":
            exc = TimeoutError("read timed out")
        elif kind == "reset":
            exc = ConnectionResetError(104, "reset")
        elif kind == "interrupt_read":
            exc = KeyboardInterrupt("user interrupt during read")
        elif kind == "partial":
            drop = [n for i, n in enumerate(names) if (p >> i) & 1] or [names[p % 3]]
            for n in drop:
                del fv[n]
        elif kind == "nulls":
            fv[names[p % 3]]["value"] = None
        elif kind == "strings":
            fv[names[p % 3]]["value"] = "n/a"
        elif kind == "nan":
            fv[names[p % 3]]["value"] = float("nan")
        elif kind == "wrongshape":
            fv[names[p % 3]] = [1, 2]
        elif kind == "nounits":
            del fv["inclination"]["units"]
        elif kind == "nokey":
            body = {"error": "quota"}
        elif kind == "notdict":
            body = {"geomagnetic-field-model-result": [["field-value"], None, 7][p % 3]}
        raw = json.dumps(body).encode()
        if kind == "truncated":
            raw = raw[:1 + p % (len(raw) - 1)]
        elif kind == "garbage":
            raw = b"<html>captive portal</html>"
        elif kind == "badutf8":
            raw = b"\xff\xfe\x00{" + raw
        elif kind == "empty":
            raw = b""
        elif kind == "incomplete":
            exc = http.client.IncompleteRead(raw[:20], 200)
        if exc is None and kind in ("ok", "slow", "rejectdate"):
            rec[2] = True
        return _Resp(raw, exc)


class _Resp(io.BytesIO):
    status = code = 200

    def __init__(self, raw, exc):
        super().__init__(raw)
        self._exc = exc

    def read(self, *a):
        if self._exc is not None:
            raise self._exc
        return super().read(*a)


def urlopen(url, *a, **k):
    if SERVICE is None:
        raise urllib.error.URLError(OSError("simulated network: no service"))
    return SERVICE.handle(url)


def install():
    urllib.request.urlopen = urlopen

    def connect(self, *a, **k):
        raise ConnectionRefusedError(111, "simulated network")
    socket.create_connection = connect


def activate(service):
    global SERVICE
    SERVICE = service
    return service
