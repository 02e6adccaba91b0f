# Generated from other.proto. DO NOT EDIT.
# Generated by protoc-gen-connectrpc-py v0.11.0 with parameter "".
# ruff: noqa: PGH004
# ruff: noqa
# fmt: off

from __future__ import annotations

from typing import Protocol, TYPE_CHECKING

from connectrpc.client import ConnectClient, ConnectClientSync
from connectrpc.code import Code
from connectrpc.errors import ConnectError
from connectrpc.method import IdempotencyLevel, MethodInfo
from connectrpc.server import ConnectASGIApplication, ConnectWSGIApplication, Endpoint, EndpointSync

from .verif_pb import Msg, Out

if TYPE_CHECKING:
    from collections.abc import AsyncGenerator, AsyncIterator, Iterable, Iterator, Mapping

    from connectrpc.codec import Codec
    from connectrpc.compression import Compression
    from connectrpc.interceptor import Interceptor, InterceptorSync
    from connectrpc.request import Headers, RequestContext


class ProbeX(Protocol):
    async def unary(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    async def unary_all(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    async def get(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    async def fetch(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def server_stream(self, request: Msg, ctx: RequestContext[Msg, Out]) -> AsyncIterator[Out]:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def bidi(self, request: AsyncIterator[Msg], ctx: RequestContext[Msg, Out]) -> AsyncIterator[Out]:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')


class ProbeXASGIApplication(ConnectASGIApplication[ProbeX]):
    def __init__(
        self,
        service: ProbeX | AsyncGenerator[ProbeX],
        *,
        interceptors: Iterable[Interceptor] = (),
        read_max_bytes: int | None = None,
        compressions: Iterable[Compression] | None = None,
        codecs: Iterable[Codec] | None = None,
    ) -> None:
        super().__init__(
            service=service,
            endpoints=lambda svc: {
                "/verif.v1.ProbeX/Unary": Endpoint.unary(
                    method=MethodInfo(
                        name="Unary",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=svc.unary,
                ),
                "/verif.v1.ProbeX/UnaryAll": Endpoint.unary(
                    method=MethodInfo(
                        name="UnaryAll",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=svc.unary_all,
                ),
                "/verif.v1.ProbeX/Get": Endpoint.unary(
                    method=MethodInfo(
                        name="Get",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=svc.get,
                ),
                "/verif.v1.ProbeX/Fetch": Endpoint.unary(
                    method=MethodInfo(
                        name="Fetch",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
                    ),
                    function=svc.fetch,
                ),
                "/verif.v1.ProbeX/ServerStream": Endpoint.server_stream(
                    method=MethodInfo(
                        name="ServerStream",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=svc.server_stream,
                ),
                "/verif.v1.ProbeX/Bidi": Endpoint.bidi_stream(
                    method=MethodInfo(
                        name="Bidi",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=svc.bidi,
                ),
            },
            interceptors=interceptors,
            read_max_bytes=read_max_bytes,
            compressions=compressions,
            codecs=codecs,
        )

    @property
    def path(self) -> str:
        """Returns the URL path to mount the application to when serving multiple applications."""
        return "/verif.v1.ProbeX"


class ProbeXClient(ConnectClient):
    async def unary(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return await self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Unary",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

    async def unary_all(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return await self.execute_unary(
            request=request,
            method=MethodInfo(
                name="UnaryAll",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

    async def get(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return await self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Get",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

    async def fetch(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
        use_get: bool = False,
    ) -> Out:
        return await self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Fetch",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
            use_get=use_get,
        )

    def server_stream(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> AsyncIterator[Out]:
        return self.execute_server_stream(
            request=request,
            method=MethodInfo(
                name="ServerStream",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

    def bidi(
        self,
        request: AsyncIterator[Msg],
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> AsyncIterator[Out]:
        return self.execute_bidi_stream(
            request=request,
            method=MethodInfo(
                name="Bidi",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )

class ProbeXSync(Protocol):
    def unary(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def unary_all(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def get(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def fetch(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Out:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def server_stream(self, request: Msg, ctx: RequestContext[Msg, Out]) -> Iterator[Out]:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')

    def bidi(self, request: Iterator[Msg], ctx: RequestContext[Msg, Out]) -> Iterator[Out]:
        raise ConnectError(Code.UNIMPLEMENTED, 'Not implemented')


class ProbeXWSGIApplication(ConnectWSGIApplication):
    def __init__(
        self,
        service: ProbeXSync,
        interceptors: Iterable[InterceptorSync] = (),
        read_max_bytes: int | None = None,
        compressions: Iterable[Compression] | None = None,
        codecs: Iterable[Codec] | None = None,
    ) -> None:
        super().__init__(
            endpoints={
                "/verif.v1.ProbeX/Unary": EndpointSync.unary(
                    method=MethodInfo(
                        name="Unary",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=service.unary,
                ),
                "/verif.v1.ProbeX/UnaryAll": EndpointSync.unary(
                    method=MethodInfo(
                        name="UnaryAll",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=service.unary_all,
                ),
                "/verif.v1.ProbeX/Get": EndpointSync.unary(
                    method=MethodInfo(
                        name="Get",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=service.get,
                ),
                "/verif.v1.ProbeX/Fetch": EndpointSync.unary(
                    method=MethodInfo(
                        name="Fetch",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
                    ),
                    function=service.fetch,
                ),
                "/verif.v1.ProbeX/ServerStream": EndpointSync.server_stream(
                    method=MethodInfo(
                        name="ServerStream",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=service.server_stream,
                ),
                "/verif.v1.ProbeX/Bidi": EndpointSync.bidi_stream(
                    method=MethodInfo(
                        name="Bidi",
                        service_name="verif.v1.ProbeX",
                        input=Msg,
                        output=Out,
                        idempotency_level=IdempotencyLevel.UNKNOWN,
                    ),
                    function=service.bidi,
                ),
            },
            interceptors=interceptors,
            read_max_bytes=read_max_bytes,
            compressions=compressions,
            codecs=codecs,
        )

    @property
    def path(self) -> str:
        """Returns the URL path to mount the application to when serving multiple applications."""
        return "/verif.v1.ProbeX"


class ProbeXClientSync(ConnectClientSync):
    def unary(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Unary",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
    def unary_all(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return self.execute_unary(
            request=request,
            method=MethodInfo(
                name="UnaryAll",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
    def get(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Out:
        return self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Get",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
    def fetch(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
        use_get: bool = False,
    ) -> Out:
        return self.execute_unary(
            request=request,
            method=MethodInfo(
                name="Fetch",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.NO_SIDE_EFFECTS,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
            use_get=use_get,
        )
    def server_stream(
        self,
        request: Msg,
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Iterator[Out]:
        return self.execute_server_stream(
            request=request,
            method=MethodInfo(
                name="ServerStream",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
    def bidi(
        self,
        request: Iterator[Msg],
        *,
        headers: Headers | Mapping[str, str] | None = None, 
        timeout_ms: int | None = None,
    ) -> Iterator[Out]:
        return self.execute_bidi_stream(
            request=request,
            method=MethodInfo(
                name="Bidi",
                service_name="verif.v1.ProbeX",
                input=Msg,
                output=Out,
                idempotency_level=IdempotencyLevel.UNKNOWN,
            ),
            headers=headers,
            timeout_ms=timeout_ms,
        )
