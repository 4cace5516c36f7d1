"""Components of one's own, that keep what they have been given."""
import mc.env  # noqa
from fedservice.entity.client.resolve import Resolve as ResolveService
from fedservice.entity.function import Function
from fedservice.entity.function.verifier import TrustChainVerifier
from fedservice.entity.server.list import List


class OwnService(ResolveService):
    service_name = "own"

    def __init__(self, upstream_get, conf=None):
        self.given = dict(conf or {})
        ResolveService.__init__(self, upstream_get, conf=conf)


class OwnEndpoint(List):
    name = "own"
    endpoint_name = "own_endpoint"

    def __init__(self, upstream_get, **kwargs):
        self.given = dict(kwargs)
        List.__init__(self, upstream_get, **kwargs)


class OwnFunction(Function):
    def __init__(self, upstream_get, **kwargs):
        self.given = dict(kwargs)
        Function.__init__(self, upstream_get)


class OwnVerifier(TrustChainVerifier):
    def __init__(self, upstream_get, **kwargs):
        self.given = dict(kwargs)
        TrustChainVerifier.__init__(self, upstream_get)
