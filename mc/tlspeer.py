"""
The far side of a secure connection, in memory (the ssl module of python itself).

`peer.pem` is a certificate made for this (valid 2020 - 2120, for good.example, proxy.example and 10.0.0.1) with its key.
`other.pem` is an other one, also claiming to be good.example and proxy.example.
"""
import hashlib, os, ssl

HERE = os.path.dirname(os.path.abspath(__file__))
CERTIFICATE = os.path.join(HERE, 'peer.pem')
OTHER_CERTIFICATE = os.path.join(HERE, 'other.pem')
VERSIONS = {'1.2': ssl.TLSVersion.TLSv1_2, '1.3': ssl.TLSVersion.TLSv1_3}

_contexts = {}


def context_for(server_side, version = '1.3', verify = False, trusted = True, other = False):
    """Context for either side. The key is short to make the handshakes fast, therefore the low security level."""
    key = (server_side, version, verify, trusted, other)
    try:
        return _contexts[key]
    except KeyError:
        pass
    context = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER if server_side else ssl.PROTOCOL_TLS_CLIENT)
    context.set_ciphers('ALL:@SECLEVEL=0')
    context.minimum_version = context.maximum_version = VERSIONS[version]
    if server_side:
        context.load_cert_chain(OTHER_CERTIFICATE if other else CERTIFICATE)
    elif verify:
        if trusted:
            context.load_verify_locations(CERTIFICATE)
    else:
        context.check_hostname = False
        context.verify_mode = ssl.CERT_NONE
    _contexts[key] = context
    return context


def fingerprint_of(other = False):
    with open(OTHER_CERTIFICATE if other else CERTIFICATE) as file:
        content = file.read()
    content = content[content.index('-----BEGIN CERTIFICATE'):]
    return hashlib.sha256(ssl.PEM_cert_to_DER_cert(content)).digest()


class Peer:
    def __init__(self, context, server_side, host_name = None):
        self.incoming = ssl.MemoryBIO()
        self.outgoing = ssl.MemoryBIO()
        self.object = context.wrap_bio(self.incoming, self.outgoing, server_side = server_side, server_hostname = host_name)
        self.done = False
        self.received = bytearray()
        self.got_close = False
        self.sent_close = False
        self.error = None
        self.queue = []

    def start(self):
        self.pump()

    def feed(self, data):
        if data:
            self.incoming.write(data)
        self.pump()

    def pump(self):
        if self.error is not None:
            return
        try:
            if not self.done:
                self.object.do_handshake()
                self.done = True
                for data in self.queue:
                    self.object.write(data)
                self.queue.clear()
            while not self.got_close:
                data = self.object.read(1 << 20)
                if data:
                    self.received += data
                else:
                    self.got_close = True
        except ssl.SSLWantReadError:
            pass
        except ssl.SSLZeroReturnError:
            self.got_close = True
        except ssl.SSLError as exception:
            self.error = exception

    def write(self, data):
        if not self.done:
            self.queue.append(data)
        elif self.error is None and not self.sent_close:
            self.object.write(data)
            return True
        return False

    def close(self):
        """Sends close notify."""
        if self.error is not None or self.sent_close or not self.done:
            return False
        self.sent_close = True
        try:
            self.object.unwrap()
        except ssl.SSLWantReadError:
            pass
        except ssl.SSLError:
            # data was there to be read
            pass
        return True

    def take(self):
        return self.outgoing.read()

    def left_over(self):
        """Bytes which came after the stream was closed."""
        return self.incoming.pending if self.got_close else 0
