"""A network under the harness' control: connections and answers are those of a plan, and are recorded."""
import base64
import io
import json
import socket


class Net:
    """plan: {"connect": error name or None, "send": error name or None, "status": int, "body": bytes or str}"""

    def __init__(self, plan):
        self.plan, self.calls = plan, []

    def __enter__(self):
        import requests
        from requests import adapters

        net = self
        self.saved = (socket.socket.connect, socket.getaddrinfo, adapters.HTTPAdapter.send, socket.create_connection)

        def fail(name):
            if name.startswith("requests."):
                return getattr(requests.exceptions, name[9:])("made to fail")
            if name == "gaierror":
                return socket.gaierror(-2, "Name or service not known")
            if name == "timeout":
                return socket.timeout("timed out")
            return {"OSError": OSError(101, "Network is unreachable"), "ConnectionRefusedError": ConnectionRefusedError(111, "refused"),
                    "PermissionError": PermissionError(1, "Operation not permitted"), "ConnectionResetError": ConnectionResetError(104, "reset"),
                    "BlockingIOError": BlockingIOError(115, "in progress")}[name]

        def connect(sock, address, *a, **k):
            net.calls.append(("connect", str(address), sock.gettimeout()))
            if net.plan.get("connect"):
                raise fail(net.plan["connect"])

        def create(address, timeout=None, *a, **k):
            net.calls.append(("connect", str(address), timeout))
            if net.plan.get("connect"):
                raise fail(net.plan["connect"])
            return socket.socket()

        def info(host, *a, **k):
            net.calls.append(("resolve", str(host), None))
            if net.plan.get("connect"):
                raise fail("gaierror")
            return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("127.0.0.1", 9))]

        def send(adapter, request, stream=False, timeout=None, **k):
            net.calls.append(("get", request.method + " " + request.url, timeout if not isinstance(timeout, tuple) else min(timeout)))
            if net.plan.get("send"):
                raise fail(net.plan["send"])
            r = requests.Response()
            r.status_code = net.plan.get("status", 200)
            body = net.plan.get("body", b"")
            r.raw = io.BytesIO(body if isinstance(body, bytes) else body.encode())
            r.url, r.request = request.url, request
            r.headers["Content-Type"] = "application/json"
            return r

        socket.socket.connect, socket.getaddrinfo, adapters.HTTPAdapter.send, socket.create_connection = connect, info, send, create
        return self

    def __exit__(self, *a):
        from requests import adapters

        socket.socket.connect, socket.getaddrinfo, adapters.HTTPAdapter.send, socket.create_connection = self.saved


def answer(changelog):
    """what the service answers when the file is there"""
    text = changelog if isinstance(changelog, bytes) else changelog.encode()
    return json.dumps({"name": "CHANGELOG.md", "encoding": "base64", "content": base64.encodebytes(text).decode()})
