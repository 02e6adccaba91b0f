# Generated from verif.proto. DO NOT EDIT.
# Generated by protoc-gen-py v0.1.1 with parameter "".
# ruff: noqa: PGH004
# ruff: noqa
# fmt: off

from __future__ import annotations

from typing import Literal, TYPE_CHECKING, TypeAlias

from protobuf import Enum, Message
from protobuf._codegen import file_desc
from protobuf.wkt import duration_pb, empty_pb, field_mask_pb, struct_pb, timestamp_pb, wrappers_pb

if TYPE_CHECKING:
    from protobuf import DescFile, Oneof
    from protobuf.wkt import Duration, FieldMask, Struct, Timestamp, UInt64Value


_LeafFields: TypeAlias = Literal["text", "blob"]

class Leaf(Message[_LeafFields]):
    """
    ```proto
    message verif.v1.Leaf
    ```

    Attributes:
        text:
            ```proto
            string text = 1;
            ```
        blob:
            ```proto
            bytes blob = 2;
            ```
    """

    __slots__ = ("text", "blob")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            text: str = "",
            blob: bytes = b"",
        ) -> None:
            pass

        text: str
        blob: bytes

_MsgFields: TypeAlias = Literal["id", "seq", "data", "ratio", "flag", "kind", "nums", "attrs", "note", "leaf", "leaves", "big", "word", "child", "zig", "fix", "small", "at", "multi_word_field", "by_number", "time_left", "odd", "free_form", "maybe_long", "field_mask"]

class Msg(Message[_MsgFields]):
    """
    ```proto
    message verif.v1.Msg
    ```

    Attributes:
        id:
            ```proto
            string id = 1;
            ```
        seq:
            ```proto
            int64 seq = 2;
            ```
        data:
            ```proto
            bytes data = 3;
            ```
        ratio:
            ```proto
            double ratio = 4;
            ```
        flag:
            ```proto
            bool flag = 5;
            ```
        kind:
            ```proto
            verif.v1.Kind kind = 6;
            ```
        nums:
            ```proto
            repeated int32 nums = 7 [packed = true];
            ```
        attrs:
            ```proto
            map<string, string> attrs = 8;
            ```
        note:
            ```proto
            optional string note = 9;
            ```
        leaf:
            ```proto
            optional verif.v1.Leaf leaf = 10;
            ```
        leaves:
            ```proto
            repeated verif.v1.Leaf leaves = 11;
            ```
        pick:
            ```proto
            oneof pick
            ```
        zig:
            ```proto
            sint32 zig = 15;
            ```
        fix:
            ```proto
            fixed64 fix = 16;
            ```
        small:
            ```proto
            float small = 17;
            ```
        at:
            ```proto
            optional google.protobuf.Timestamp at = 18;
            ```
        multi_word_field:
            ```proto
            int32 multi_word_field = 19;
            ```
        by_number:
            ```proto
            map<int64, verif.v1.Leaf> by_number = 20;
            ```
        time_left:
            ```proto
            optional google.protobuf.Duration time_left = 21;
            ```
        odd:
            ```proto
            string odd = 22 [json_name = "@odd.name"];
            ```
        free_form:
            ```proto
            optional google.protobuf.Struct free_form = 23;
            ```
        maybe_long:
            ```proto
            optional google.protobuf.UInt64Value maybe_long = 24;
            ```
        field_mask:
            ```proto
            optional google.protobuf.FieldMask field_mask = 25;
            ```
    """

    __slots__ = ("id", "seq", "data", "ratio", "flag", "kind", "nums", "attrs", "note", "leaf", "leaves", "zig", "fix", "small", "at", "multi_word_field", "by_number", "time_left", "odd", "free_form", "maybe_long", "field_mask", "pick")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            id: str = "",
            seq: int = 0,
            data: bytes = b"",
            ratio: float = 0,
            flag: bool = False,
            kind: Kind | None = None,
            nums: list[int] | None = None,
            attrs: dict[str, str] | None = None,
            note: str | None = None,
            leaf: Leaf | None = None,
            leaves: list[Leaf] | None = None,
            pick: Oneof[Literal["big"], int] | Oneof[Literal["word"], str] | Oneof[Literal["child"], Msg] | None = None,
            zig: int = 0,
            fix: int = 0,
            small: float = 0,
            at: Timestamp | None = None,
            multi_word_field: int = 0,
            by_number: dict[int, Leaf] | None = None,
            time_left: Duration | None = None,
            odd: str = "",
            free_form: Struct | None = None,
            maybe_long: UInt64Value | None = None,
            field_mask: FieldMask | None = None,
        ) -> None:
            pass

        id: str
        seq: int
        data: bytes
        ratio: float
        flag: bool
        kind: Kind
        nums: list[int]
        attrs: dict[str, str]
        note: str
        leaf: Leaf | None
        leaves: list[Leaf]
        pick: Oneof[Literal["big"], int] | Oneof[Literal["word"], str] | Oneof[Literal["child"], Msg] | None
        zig: int
        fix: int
        small: float
        at: Timestamp | None
        multi_word_field: int
        by_number: dict[int, Leaf]
        time_left: Duration | None
        odd: str
        free_form: Struct | None
        maybe_long: UInt64Value | None
        field_mask: FieldMask | None

_OutFields: TypeAlias = Literal["id", "seq", "echo", "data"]

class Out(Message[_OutFields]):
    """
    Another type so that mixups between request and response classes show.

    ```proto
    message verif.v1.Out
    ```

    Attributes:
        id:
            ```proto
            string id = 1;
            ```
        seq:
            ```proto
            int64 seq = 2;
            ```
        echo:
            ```proto
            optional verif.v1.Msg echo = 3;
            ```
        data:
            ```proto
            bytes data = 4;
            ```
    """

    __slots__ = ("id", "seq", "echo", "data")

    if TYPE_CHECKING:

        def __init__(
            self,
            *,
            id: str = "",
            seq: int = 0,
            echo: Msg | None = None,
            data: bytes = b"",
        ) -> None:
            pass

        id: str
        seq: int
        echo: Msg | None
        data: bytes

class Kind(Enum):
    """
    ```proto
    enum verif.v1.Kind
    ```

    Attributes:
        UNSPECIFIED:
            ```proto
            KIND_UNSPECIFIED = 0
            ```
        A:
            ```proto
            KIND_A = 1
            ```
        B:
            ```proto
            KIND_B = 2
            ```
    """

    UNSPECIFIED = 0
    A = 1
    B = 2


_DESC = file_desc(
    b'\n\x0bverif.proto\x12\x08verif.v1\x1a\x1bgoogle/protobuf/empty.proto\x1a\x1fgoogle/protobuf/timestamp.proto\x1a\x1egoogle/protobuf/duration.proto\x1a google/protobuf/field_mask.proto\x1a\x1cgoogle/protobuf/struct.proto\x1a\x1egoogle/protobuf/wrappers.proto".\n\x04Leaf\x12\x12\n\x04text\x18\x01 \x01(\tR\x04text\x12\x12\n\x04blob\x18\x02 \x01(\x0cR\x04blob"\xe3\x07\n\x03Msg\x12\x0e\n\x02id\x18\x01 \x01(\tR\x02id\x12\x10\n\x03seq\x18\x02 \x01(\x03R\x03seq\x12\x12\n\x04data\x18\x03 \x01(\x0cR\x04data\x12\x14\n\x05ratio\x18\x04 \x01(\x01R\x05ratio\x12\x12\n\x04flag\x18\x05 \x01(\x08R\x04flag\x12"\n\x04kind\x18\x06 \x01(\x0e2\x0e.verif.v1.KindR\x04kind\x12\x12\n\x04nums\x18\x07 \x03(\x05R\x04nums\x12.\n\x05attrs\x18\x08 \x03(\x0b2\x18.verif.v1.Msg.AttrsEntryR\x05attrs\x12\x17\n\x04note\x18\t \x01(\tH\x01R\x04note\x88\x01\x01\x12"\n\x04leaf\x18\n \x01(\x0b2\x0e.verif.v1.LeafR\x04leaf\x12&\n\x06leaves\x18\x0b \x03(\x0b2\x0e.verif.v1.LeafR\x06leaves\x12\x12\n\x03big\x18\x0c \x01(\x04H\x00R\x03big\x12\x14\n\x04word\x18\r \x01(\tH\x00R\x04word\x12%\n\x05child\x18\x0e \x01(\x0b2\r.verif.v1.MsgH\x00R\x05child\x12\x10\n\x03zig\x18\x0f \x01(\x11R\x03zig\x12\x10\n\x03fix\x18\x10 \x01(\x06R\x03fix\x12\x14\n\x05small\x18\x11 \x01(\x02R\x05small\x12*\n\x02at\x18\x12 \x01(\x0b2\x1a.google.protobuf.TimestampR\x02at\x12(\n\x10multi_word_field\x18\x13 \x01(\x05R\x0emultiWordField\x128\n\tby_number\x18\x14 \x03(\x0b2\x1b.verif.v1.Msg.ByNumberEntryR\x08byNumber\x126\n\ttime_left\x18\x15 \x01(\x0b2\x19.google.protobuf.DurationR\x08timeLeft\x12\x16\n\x03odd\x18\x16 \x01(\tR\t@odd.name\x124\n\tfree_form\x18\x17 \x01(\x0b2\x17.google.protobuf.StructR\x08freeForm\x12;\n\nmaybe_long\x18\x18 \x01(\x0b2\x1c.google.protobuf.UInt64ValueR\tmaybeLong\x129\n\nfield_mask\x18\x19 \x01(\x0b2\x1a.google.protobuf.FieldMaskR\tfieldMask\x1a8\n\nAttrsEntry\x12\x10\n\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aK\n\rByNumberEntry\x12\x10\n\x03key\x18\x01 \x01(\x03R\x03key\x12$\n\x05value\x18\x02 \x01(\x0b2\x0e.verif.v1.LeafR\x05value:\x028\x01B\x06\n\x04pickB\x07\n\x05_note"^\n\x03Out\x12\x0e\n\x02id\x18\x01 \x01(\tR\x02id\x12\x10\n\x03seq\x18\x02 \x01(\x03R\x03seq\x12!\n\x04echo\x18\x03 \x01(\x0b2\r.verif.v1.MsgR\x04echo\x12\x12\n\x04data\x18\x04 \x01(\x0cR\x04data*4\n\x04Kind\x12\x14\n\x10KIND_UNSPECIFIED\x10\x00\x12\n\n\x06KIND_A\x10\x01\x12\n\n\x06KIND_B\x10\x022\x80\x03\n\x05Probe\x12\'\n\x05Unary\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x00\x12(\n\x03Get\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x03\x90\x02\x01\x12)\n\x04Idem\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x03\x90\x02\x02\x120\n\x0cClientStream\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x00(\x01\x120\n\x0cServerStream\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x000\x01\x12*\n\x04Bidi\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x00(\x010\x01\x12,\n\x05Watch\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out"\x03\x90\x02\x010\x01\x12;\n\x07Nothing\x12\x16.google.protobuf.Empty\x1a\x16.google.protobuf.Empty"\x00b\x06proto3',
    [
        empty_pb.desc(),
        timestamp_pb.desc(),
        duration_pb.desc(),
        field_mask_pb.desc(),
        struct_pb.desc(),
        wrappers_pb.desc(),
    ],
    {
        "Leaf": Leaf,
        "Msg": Msg,
        "Out": Out,
        "Kind": Kind,
    },
)


def desc() -> DescFile:
    """Returns the descriptor for the file `verif.proto`."""
    return _DESC
