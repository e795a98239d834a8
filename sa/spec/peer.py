"""A transport for the client to use; its methods are replaced by models."""


class Peer:
    def connect(self):
        pass

    def disconnect(self):
        pass

    def send(self, data):
        pass

    def recv(self, *args, **kwargs):
        pass
