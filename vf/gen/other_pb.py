# Generated from other.proto. DO NOT EDIT.
# Generated by protoc-gen-py v0.1.1 with parameter "".
# ruff: noqa: PGH004
# ruff: noqa
# fmt: off

from __future__ import annotations

from typing import TYPE_CHECKING

from protobuf._codegen import file_desc

from . import verif_pb

if TYPE_CHECKING:
    from protobuf import DescFile



_DESC = file_desc(
    b'\n\x0bother.proto\x12\x08verif.v1\x1a\x0bverif.proto2\x8e\x02\n\x06ProbeX\x12\'\n\x05Unary\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x00\x12*\n\x08UnaryAll\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x00\x12%\n\x03Get\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x00\x12*\n\x05Fetch\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x03\x90\x02\x01\x120\n\x0cServerStream\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x000\x01\x12*\n\x04Bidi\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x00(\x010\x01b\x06proto3',
    [
        verif_pb.desc(),
    ],
    {
    },
)


def desc() -> DescFile:
    """Returns the descriptor for the file `other.proto`."""
    return _DESC
