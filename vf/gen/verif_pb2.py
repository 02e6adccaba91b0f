# -*- coding: utf-8 -*-
# Generated by the protocol buffer compiler.  DO NOT EDIT!
# NO CHECKED-IN PROTOBUF GENCODE
# source: verif.proto
# Protobuf Python Version: 6.33.5
"""Generated protocol buffer code."""
from google.protobuf import descriptor as _descriptor
from google.protobuf import descriptor_pool as _descriptor_pool
from google.protobuf import runtime_version as _runtime_version
from google.protobuf import symbol_database as _symbol_database
from google.protobuf.internal import builder as _builder
_runtime_version.ValidateProtobufRuntimeVersion(
    _runtime_version.Domain.PUBLIC,
    6,
    33,
    5,
    '',
    'verif.proto'
)
# @@protoc_insertion_point(imports)

_sym_db = _symbol_database.Default()


from google.protobuf import empty_pb2 as google_dot_protobuf_dot_empty__pb2
from google.protobuf import timestamp_pb2 as google_dot_protobuf_dot_timestamp__pb2
from google.protobuf import duration_pb2 as google_dot_protobuf_dot_duration__pb2
from google.protobuf import field_mask_pb2 as google_dot_protobuf_dot_field__mask__pb2
from google.protobuf import struct_pb2 as google_dot_protobuf_dot_struct__pb2
from google.protobuf import wrappers_pb2 as google_dot_protobuf_dot_wrappers__pb2


DESCRIPTOR = _descriptor_pool.Default().AddSerializedFile(b'\n\x0bverif.proto\x12\x08verif.v1\x1a\x1bgoogle/protobuf/empty.proto\x1a\x1fgoogle/protobuf/timestamp.proto\x1a\x1egoogle/protobuf/duration.proto\x1a google/protobuf/field_mask.proto\x1a\x1cgoogle/protobuf/struct.proto\x1a\x1egoogle/protobuf/wrappers.proto\"\"\n\x04Leaf\x12\x0c\n\x04text\x18\x01 \x01(\t\x12\x0c\n\x04\x62lob\x18\x02 \x01(\x0c\"\x9d\x06\n\x03Msg\x12\n\n\x02id\x18\x01 \x01(\t\x12\x0b\n\x03seq\x18\x02 \x01(\x03\x12\x0c\n\x04\x64\x61ta\x18\x03 \x01(\x0c\x12\r\n\x05ratio\x18\x04 \x01(\x01\x12\x0c\n\x04\x66lag\x18\x05 \x01(\x08\x12\x1c\n\x04kind\x18\x06 \x01(\x0e\x32\x0e.verif.v1.Kind\x12\x0c\n\x04nums\x18\x07 \x03(\x05\x12\'\n\x05\x61ttrs\x18\x08 \x03(\x0b\x32\x18.verif.v1.Msg.AttrsEntry\x12\x11\n\x04note\x18\t \x01(\tH\x01\x88\x01\x01\x12\x1c\n\x04leaf\x18\n \x01(\x0b\x32\x0e.verif.v1.Leaf\x12\x1e\n\x06leaves\x18\x0b \x03(\x0b\x32\x0e.verif.v1.Leaf\x12\r\n\x03\x62ig\x18\x0c \x01(\x04H\x00\x12\x0e\n\x04word\x18\r \x01(\tH\x00\x12\x1e\n\x05\x63hild\x18\x0e \x01(\x0b\x32\r.verif.v1.MsgH\x00\x12\x0b\n\x03zig\x18\x0f \x01(\x11\x12\x0b\n\x03\x66ix\x18\x10 \x01(\x06\x12\r\n\x05small\x18\x11 \x01(\x02\x12&\n\x02\x61t\x18\x12 \x01(\x0b\x32\x1a.google.protobuf.Timestamp\x12\x18\n\x10multi_word_field\x18\x13 \x01(\x05\x12.\n\tby_number\x18\x14 \x03(\x0b\x32\x1b.verif.v1.Msg.ByNumberEntry\x12,\n\ttime_left\x18\x15 \x01(\x0b\x32\x19.google.protobuf.Duration\x12\x16\n\x03odd\x18\x16 \x01(\tR\t@odd.name\x12*\n\tfree_form\x18\x17 \x01(\x0b\x32\x17.google.protobuf.Struct\x12\x30\n\nmaybe_long\x18\x18 \x01(\x0b\x32\x1c.google.protobuf.UInt64Value\x12.\n\nfield_mask\x18\x19 \x01(\x0b\x32\x1a.google.protobuf.FieldMask\x1a,\n\nAttrsEntry\x12\x0b\n\x03key\x18\x01 \x01(\t\x12\r\n\x05value\x18\x02 \x01(\t:\x02\x38\x01\x1a?\n\rByNumberEntry\x12\x0b\n\x03key\x18\x01 \x01(\x03\x12\x1d\n\x05value\x18\x02 \x01(\x0b\x32\x0e.verif.v1.Leaf:\x02\x38\x01\x42\x06\n\x04pickB\x07\n\x05_note\"I\n\x03Out\x12\n\n\x02id\x18\x01 \x01(\t\x12\x0b\n\x03seq\x18\x02 \x01(\x03\x12\x1b\n\x04\x65\x63ho\x18\x03 \x01(\x0b\x32\r.verif.v1.Msg\x12\x0c\n\x04\x64\x61ta\x18\x04 \x01(\x0c*4\n\x04Kind\x12\x14\n\x10KIND_UNSPECIFIED\x10\x00\x12\n\n\x06KIND_A\x10\x01\x12\n\n\x06KIND_B\x10\x02\x32\x80\x03\n\x05Probe\x12\'\n\x05Unary\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out\"\x00\x12(\n\x03Get\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out\"\x03\x90\x02\x01\x12)\n\x04Idem\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out\"\x03\x90\x02\x02\x12\x30\n\x0c\x43lientStream\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out\"\x00(\x01\x12\x30\n\x0cServerStream\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out\"\x00\x30\x01\x12*\n\x04\x42idi\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out\"\x00(\x01\x30\x01\x12,\n\x05Watch\x12\r.verif.v1.Msg\x1a\r.verif.v1.Out\"\x03\x90\x02\x01\x30\x01\x12;\n\x07Nothing\x12\x16.google.protobuf.Empty\x1a\x16.google.protobuf.Empty\"\x00\x62\x06proto3')

_globals = globals()
_builder.BuildMessageAndEnumDescriptors(DESCRIPTOR, _globals)
_builder.BuildTopDescriptorsAndMessages(DESCRIPTOR, 'verif_pb2', _globals)
if not _descriptor._USE_C_DESCRIPTORS:
  DESCRIPTOR._loaded_options = None
  _globals['_MSG_ATTRSENTRY']._loaded_options = None
  _globals['_MSG_ATTRSENTRY']._serialized_options = b'8\001'
  _globals['_MSG_BYNUMBERENTRY']._loaded_options = None
  _globals['_MSG_BYNUMBERENTRY']._serialized_options = b'8\001'
  _globals['_PROBE'].methods_by_name['Get']._loaded_options = None
  _globals['_PROBE'].methods_by_name['Get']._serialized_options = b'\220\002\001'
  _globals['_PROBE'].methods_by_name['Idem']._loaded_options = None
  _globals['_PROBE'].methods_by_name['Idem']._serialized_options = b'\220\002\002'
  _globals['_PROBE'].methods_by_name['Watch']._loaded_options = None
  _globals['_PROBE'].methods_by_name['Watch']._serialized_options = b'\220\002\001'
  _globals['_KIND']._serialized_start=1126
  _globals['_KIND']._serialized_end=1178
  _globals['_LEAF']._serialized_start=215
  _globals['_LEAF']._serialized_end=249
  _globals['_MSG']._serialized_start=252
  _globals['_MSG']._serialized_end=1049
  _globals['_MSG_ATTRSENTRY']._serialized_start=923
  _globals['_MSG_ATTRSENTRY']._serialized_end=967
  _globals['_MSG_BYNUMBERENTRY']._serialized_start=969
  _globals['_MSG_BYNUMBERENTRY']._serialized_end=1032
  _globals['_OUT']._serialized_start=1051
  _globals['_OUT']._serialized_end=1124
  _globals['_PROBE']._serialized_start=1181
  _globals['_PROBE']._serialized_end=1565
# @@protoc_insertion_point(module_scope)
