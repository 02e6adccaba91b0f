# Generated from verif.proto. DO NOT EDIT.
# Generated by protoc-gen-connectrpc-py v0.11.0 with parameter "".
# ruff: noqa: PGH004
# ruff: noqa
# fmt: off

from __future__ import annotations

from typing import Protocol, TYPE_CHECKING

from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync
from protobuf.wkt import Empty

from .verif_pb import Msg, Out

if TYPE_CHECKING:
    from collections.abc import AsyncGenerator, AsyncIterator, Iterable, Iterator, Mapping

    from connectrpc.codec import Codec
    from connectrpc.compression import Compression
    from connectrpc.interceptor import Interceptor, InterceptorSync
    from connectrpc.request import Headers, RequestContext


class Probe(Protocol):
    async def unary(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    async def get(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    async def idem(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    async def client_stream(self, request: AsyncIterator[Msg], ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def server_stream(self, request: Msg, ctx: RequestContext[Msg, Out]) -> AsyncIterator[Out]:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def bidi(self, request: AsyncIterator[Msg], ctx: RequestContext[Msg, Out]) -> AsyncIterator[Out]:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def watch(self, request: Msg, ctx: RequestContext[Msg, Out]) -> AsyncIterator[Out]:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    async def nothing(self, request: Empty, ctx: RequestContext[Empty, Empty]) -> Empty:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')


class ProbeASGIApplication(ConnectASGIApplication[Probe]):
    def __init__(
        self,
        service: Probe | AsyncGenerator[Probe],
        *,
        interceptors: Iterable[Interceptor] = (),
        read_max_bytes: int | None = None,
        compressions: Iterable[Compression] | None = None,
        codecs: Iterable[Codec] | None = None,
    ) -> None:
        super().__init__(
            service=service,
            endpoints=lambda svc: {
                "/verif.v1.Probe/Unary": Endpoint.unary(
                    method=MethodInfo(
                        name="Unary",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=svc.unary,
                ),
                "/verif.v1.Probe/Get": Endpoint.unary(
                    method=MethodInfo(
                        name="Get",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
                    ),
                    function=svc.get,
                ),
                "/verif.v1.Probe/Idem": Endpoint.unary(
                    method=MethodInfo(
                        name="Idem",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.IDEMPOTENT,
                    ),
                    function=svc.idem,
                ),
                "/verif.v1.Probe/ClientStream": Endpoint.client_stream(
                    method=MethodInfo(
                        name="ClientStream",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=svc.client_stream,
                ),
                "/verif.v1.Probe/ServerStream": Endpoint.server_stream(
                    method=MethodInfo(
                        name="ServerStream",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=svc.server_stream,
                ),
                "/verif.v1.Probe/Bidi": Endpoint.bidi_stream(
                    method=MethodInfo(
                        name="Bidi",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=svc.bidi,
                ),
                "/verif.v1.Probe/Watch": Endpoint.server_stream(
                    method=MethodInfo(
                        name="Watch",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
                    ),
                    function=svc.watch,
                ),
                "/verif.v1.Probe/Nothing": Endpoint.unary(
                    method=MethodInfo(
                        name="Nothing",
                        service_name="verif.v1.Probe",
                        input=Empty,
                        output=Empty,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=svc.nothing,
                ),
            },
            interceptors=interceptors,
            read_max_bytes=read_max_bytes,
            compressions=compressions,
            codecs=codecs,
        )

    @property
    def path(self) -> str:
        """Returns the URL path to mount the application to when serving multiple applications."""
        return "/verif.v1.Probe"


class ProbeClient(ConnectClient):
    async def unary(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return await self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Unary",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

    async def get(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
        use_get: bool = False,
    ) -> Out:
        return await self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Get",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
            use_get=use_get,
        )

    async def idem(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return await self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Idem",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.IDEMPOTENT,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

    async def client_stream(
        self,
        request: AsyncIterator[Msg],
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return await self.execute_client_stream(
            request=request,
            method=MethodInfo(
                name="ClientStream",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

    def server_stream(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> AsyncIterator[Out]:
        return self.execute_server_stream(
            request=request,
            method=MethodInfo(
                name="ServerStream",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

    def bidi(
        self,
        request: AsyncIterator[Msg],
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> AsyncIterator[Out]:
        return self.execute_bidi_stream(
            request=request,
            method=MethodInfo(
                name="Bidi",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

    def watch(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> AsyncIterator[Out]:
        return self.execute_server_stream(
            request=request,
            method=MethodInfo(
                name="Watch",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

    async def nothing(
        self,
        request: Empty,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Empty:
        return await self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Nothing",
                service_name="verif.v1.Probe",
                input=Empty,
                output=Empty,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

class ProbeSync(Protocol):
    def unary(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def get(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def idem(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def client_stream(self, request: Iterator[Msg], ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def server_stream(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Iterator[Out]:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def bidi(self, request: Iterator[Msg], ctx: RequestContext[Msg, Out]) -> Iterator[Out]:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def watch(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Iterator[Out]:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def nothing(self, request: Empty, ctx: RequestContext[Empty, Empty]) -> Empty:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')


class ProbeWSGIApplication(ConnectWSGIApplication):
    def __init__(
        self,
        service: ProbeSync,
        interceptors: Iterable[InterceptorSync] = (),
        read_max_bytes: int | None = None,
        compressions: Iterable[Compression] | None = None,
        codecs: Iterable[Codec] | None = None,
    ) -> None:
        super().__init__(
            endpoints={
                "/verif.v1.Probe/Unary": EndpointSync.unary(
                    method=MethodInfo(
                        name="Unary",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=service.unary,
                ),
                "/verif.v1.Probe/Get": EndpointSync.unary(
                    method=MethodInfo(
                        name="Get",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
                    ),
                    function=service.get,
                ),
                "/verif.v1.Probe/Idem": EndpointSync.unary(
                    method=MethodInfo(
                        name="Idem",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.IDEMPOTENT,
                    ),
                    function=service.idem,
                ),
                "/verif.v1.Probe/ClientStream": EndpointSync.client_stream(
                    method=MethodInfo(
                        name="ClientStream",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=service.client_stream,
                ),
                "/verif.v1.Probe/ServerStream": EndpointSync.server_stream(
                    method=MethodInfo(
                        name="ServerStream",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=service.server_stream,
                ),
                "/verif.v1.Probe/Bidi": EndpointSync.bidi_stream(
                    method=MethodInfo(
                        name="Bidi",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=service.bidi,
                ),
                "/verif.v1.Probe/Watch": EndpointSync.server_stream(
                    method=MethodInfo(
                        name="Watch",
                        service_name="verif.v1.Probe",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
                    ),
                    function=service.watch,
                ),
                "/verif.v1.Probe/Nothing": EndpointSync.unary(
                    method=MethodInfo(
                        name="Nothing",
                        service_name="verif.v1.Probe",
                        input=Empty,
                        output=Empty,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=service.nothing,
                ),
            },
            interceptors=interceptors,
            read_max_bytes=read_max_bytes,
            compressions=compressions,
            codecs=codecs,
        )

    @property
    def path(self) -> str:
        """Returns the URL path to mount the application to when serving multiple applications."""
        return "/verif.v1.Probe"


class ProbeClientSync(ConnectClientSync):
    def unary(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Unary",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
    def get(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
        use_get: bool = False,
    ) -> Out:
        return self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Get",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
            use_get=use_get,
        )
    def idem(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Idem",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.IDEMPOTENT,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
    def client_stream(
        self,
        request: Iterator[Msg],
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return self.execute_client_stream(
            request=request,
            method=MethodInfo(
                name="ClientStream",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
    def server_stream(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Iterator[Out]:
        return self.execute_server_stream(
            request=request,
            method=MethodInfo(
                name="ServerStream",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
    def bidi(
        self,
        request: Iterator[Msg],
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Iterator[Out]:
        return self.execute_bidi_stream(
            request=request,
            method=MethodInfo(
                name="Bidi",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
    def watch(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Iterator[Out]:
        return self.execute_server_stream(
            request=request,
            method=MethodInfo(
                name="Watch",
                service_name="verif.v1.Probe",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
    def nothing(
        self,
        request: Empty,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Empty:
        return self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Nothing",
                service_name="verif.v1.Probe",
                input=Empty,
                output=Empty,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
