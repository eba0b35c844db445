----------------------------- MODULE BlfFormat ------------------------------
(***************************************************************************)
(* The BLF object format as vblf documents it: type codes, byte layouts,   *)
(* text encodings, decoding and encoding.  This is the oracle for every    *)
(* codec property and the data part of the reader and writer machines.     *)
(*                                                                         *)
(* A field is <<path, kind, offset, width, symbol class>> with kind        *)
(*   u  unsigned little-endian     s  signed little-endian                 *)
(*   b  fixed-size bytes           f  IEEE double (kept as its 8 bytes)    *)
(*   a4 / a8  array of unsigned 4 / 8 byte integers                        *)
(* A value is a record [t, v]:                                             *)
(*   i  integer >= 0, v its 8 little-endian bytes                          *)
(*   n  negative integer, v its 8 byte two's complement                    *)
(*   b  bytes    s  text, v its code points    f  double, v its bytes      *)
(*   I  list of integers, v the list of their 8 little-endian bytes        *)
(* Anything else a projection of the implementation may contain (other     *)
(* types, too big integers) has another t and equals no expected value.    *)
(***************************************************************************)
EXTENDS BlfBytes

\* ------------------------------------------------------------------ symbols
Sym_ObjType ==
  << <<0, "UNKNOWN">>, <<1, "CAN_MESSAGE">>, <<2, "CAN_ERROR">>, <<3, "CAN_OVERLOAD">>, <<4,
  "CAN_STATISTIC">>, <<5, "APP_TRIGGER">>, <<6, "ENV_INTEGER">>, <<7, "ENV_DOUBLE">>, <<8,
  "ENV_STRING">>, <<9, "ENV_DATA">>, <<10, "LOG_CONTAINER">>, <<11, "LIN_MESSAGE">>, <<12,
  "LIN_CRC_ERROR">>, <<13, "LIN_DLC_INFO">>, <<14, "LIN_RCV_ERROR">>, <<15, "LIN_SND_ERROR">>,
  <<16, "LIN_SLV_TIMEOUT">>, <<17, "LIN_SCHED_MODCH">>, <<18, "LIN_SYN_ERROR">>, <<19,
  "LIN_BAUDRATE">>, <<20, "LIN_SLEEP">>, <<21, "LIN_WAKEUP">>, <<22, "MOST_SPY">>, <<23,
  "MOST_CTRL">>, <<24, "MOST_LIGHTLOCK">>, <<25, "MOST_STATISTIC">>, <<26, "reserved_1">>, <<27,
  "reserved_2">>, <<28, "reserved_3">>, <<29, "FLEXRAY_DATA">>, <<30, "FLEXRAY_SYNC">>, <<31,
  "CAN_DRIVER_ERROR">>, <<32, "MOST_PKT">>, <<33, "MOST_PKT2">>, <<34, "MOST_HWMODE">>, <<35,
  "MOST_REG">>, <<36, "MOST_GENREG">>, <<37, "MOST_NETSTATE">>, <<38, "MOST_DATALOST">>, <<39,
  "MOST_TRIGGER">>, <<40, "FLEXRAY_CYCLE">>, <<41, "FLEXRAY_MESSAGE">>, <<42,
  "LIN_CHECKSUM_INFO">>, <<43, "LIN_SPIKE_EVENT">>, <<44, "CAN_DRIVER_SYNC">>, <<45,
  "FLEXRAY_STATUS">>, <<46, "GPS_EVENT">>, <<47, "FR_ERROR">>, <<48, "FR_STATUS">>, <<49,
  "FR_STARTCYCLE">>, <<50, "FR_RCVMESSAGE">>, <<51, "REALTIMECLOCK">>, <<52, "AVAILABLE2">>,
  <<53, "AVAILABLE3">>, <<54, "LIN_STATISTIC">>, <<55, "J1708_MESSAGE">>, <<56,
  "J1708_VIRTUAL_MSG">>, <<57, "LIN_MESSAGE2">>, <<58, "LIN_SND_ERROR2">>, <<59,
  "LIN_SYN_ERROR2">>, <<60, "LIN_CRC_ERROR2">>, <<61, "LIN_RCV_ERROR2">>, <<62, "LIN_WAKEUP2">>,
  <<63, "LIN_SPIKE_EVENT2">>, <<64, "LIN_LONG_DOM_SIG">>, <<65, "APP_TEXT">>, <<66,
  "FR_RCVMESSAGE_EX">>, <<67, "MOST_STATISTICEX">>, <<68, "MOST_TXLIGHT">>, <<69,
  "MOST_ALLOCTAB">>, <<70, "MOST_STRESS">>, <<71, "ETHERNET_FRAME">>, <<72, "SYS_VARIABLE">>,
  <<73, "CAN_ERROR_EXT">>, <<74, "CAN_DRIVER_ERROR_EXT">>, <<75, "LIN_LONG_DOM_SIG2">>, <<76,
  "MOST_150_MESSAGE">>, <<77, "MOST_150_PKT">>, <<78, "MOST_ETHERNET_PKT">>, <<79,
  "MOST_150_MESSAGE_FRAGMENT">>, <<80, "MOST_150_PKT_FRAGMENT">>, <<81,
  "MOST_ETHERNET_PKT_FRAGMENT">>, <<82, "MOST_SYSTEM_EVENT">>, <<83, "MOST_150_ALLOCTAB">>,
  <<84, "MOST_50_MESSAGE">>, <<85, "MOST_50_PKT">>, <<86, "CAN_MESSAGE2">>, <<87,
  "LIN_UNEXPECTED_WAKEUP">>, <<88, "LIN_SHORT_OR_SLOW_RESPONSE">>, <<89,
  "LIN_DISTURBANCE_EVENT">>, <<90, "SERIAL_EVENT">>, <<91, "OVERRUN_ERROR">>, <<92,
  "EVENT_COMMENT">>, <<93, "WLAN_FRAME">>, <<94, "WLAN_STATISTIC">>, <<95, "MOST_ECL">>, <<96,
  "GLOBAL_MARKER">>, <<97, "AFDX_FRAME">>, <<98, "AFDX_STATISTIC">>, <<99,
  "KLINE_STATUSEVENT">>, <<100, "CAN_FD_MESSAGE">>, <<101, "CAN_FD_MESSAGE_64">>, <<102,
  "ETHERNET_RX_ERROR">>, <<103, "ETHERNET_STATUS">>, <<104, "CAN_FD_ERROR_64">>, <<105,
  "LIN_SHORT_OR_SLOW_RESPONSE2">>, <<106, "AFDX_STATUS">>, <<107, "AFDX_BUS_STATISTIC">>, <<108,
  "reserved_4">>, <<109, "AFDX_ERROR_EVENT">>, <<110, "A429_ERROR">>, <<111, "A429_STATUS">>,
  <<112, "A429_BUS_STATISTIC">>, <<113, "A429_MESSAGE">>, <<114, "ETHERNET_STATISTIC">>, <<115,
  "reserved_5">>, <<116, "reserved_6">>, <<117, "reserved_7">>, <<118, "TEST_STRUCTURE">>,
  <<119, "DIAG_REQUEST_INTERPRETATION">>, <<120, "ETHERNET_FRAME_EX">>, <<121,
  "ETHERNET_FRAME_FORWARDED">>, <<122, "ETHERNET_ERROR_EX">>, <<123,
  "ETHERNET_ERROR_FORWARDED">>, <<124, "FUNCTION_BUS">>, <<125, "DATA_LOST_BEGIN">>, <<126,
  "DATA_LOST_END">>, <<127, "WATER_MARK_EVENT">>, <<128, "TRIGGER_CONDITION">> >>
Sym_AppId ==
  << <<0, "UNKNOWN">>, <<1, "CANALYZER">>, <<2, "CANOE">>, <<3, "CANSTRESS">>, <<4, "CANLOG">>,
  <<5, "CANAPE">>, <<6, "CANCASEXLLOG">>, <<7, "VLCONFIG">>, <<200, "PORSCHELOGGER">> >>
Sym_Compression ==
  << <<0, "NONE">>, <<1, "SPEED">>, <<6, "DEFAULT">>, <<9, "MAX">> >>
Sym_AppTextSource ==
  << <<0, "MEASUREMENTCOMMENT">>, <<1, "DBCHANNELINFO">>, <<2, "METADATA">>, <<3,
  "ATTACHMENT">>, <<4, "TRACELINE">> >>
Sym_SysVarType ==
  << <<1, "DOUBLE">>, <<2, "LONG">>, <<3, "STRING">>, <<4, "DOUBLEARRAY">>, <<5, "LONGARRAY">>,
  <<6, "LONGLONG">>, <<7, "BYTEARRAY">> >>
Sym_BusType ==
  << <<1, "CAN">>, <<5, "LIN">>, <<6, "MOST">>, <<7, "FLEXRAY">>, <<9, "J1708">>, <<10,
  "ETHERNET">>, <<13, "WLAN">>, <<14, "AFDX">> >>
Sym_FunctionBusType ==
  << <<0, "UNDEFINED">>, <<1, "SIGNAL">>, <<2, "SERVICE_FUNCTION">>, <<3, "STATE">> >>
Sym_TriggerConditionStatus ==
  << <<0, "UNKNOWN">>, <<1, "START">>, <<2, "STOP">>, <<3, "STARTSTOP">> >>

\* flag fields: bit value and symbol; a combination has the symbols of its bits
Sym_ObjFlags == << <<1, "TIME_TEN_MICS">>, <<2, "TIME_ONE_NANS">> >>
Sym_TriggerFlag == << <<0, "SINGLE_TRIGGER">>, <<1, "LOGGING_START">>, <<2, "LOGGING_STOP">> >>
Sym_CanFdFlags ==
  << <<4, "NERR">>, <<8, "HIGH_VOLTAGE_WAKE_UP">>, <<16, "REMOTE_FRAME">>, <<64, "TX_ACKNOWLEDGE">>,
  <<128, "TX_REQUEST">>, <<512, "SRR">>, <<1024, "R0">>, <<2048, "R1">>, <<4096, "FDF">>,
  <<8192, "BRS">>, <<16384, "ESI">>, <<131072, "FRAME_PART_OF_BURST">>,
  <<262144, "SINGLE_SHOT_MODE_NOT_TRANSMITTED">>, <<524288, "SINGLE_SHOT_MODE_REASON">> >>

SymbolTable(e) ==
  CASE e = "ObjType" -> Sym_ObjType [] e = "AppId" -> Sym_AppId
    [] e = "Compression" -> Sym_Compression
    [] e = "AppTextSource" -> Sym_AppTextSource [] e = "SysVarType" -> Sym_SysVarType
    [] e = "BusType" -> Sym_BusType [] e = "FunctionBusType" -> Sym_FunctionBusType
    [] e = "TriggerConditionStatus" -> Sym_TriggerConditionStatus
    [] e = "ObjFlags" -> Sym_ObjFlags [] e = "TriggerFlag" -> Sym_TriggerFlag
    [] e = "CanFdFlags" -> Sym_CanFdFlags
    [] OTHER -> <<>>

Codes(e) == {SymbolTable(e)[i][1] : i \in 1..Len(SymbolTable(e))}
ObjTypeCodes == Codes("ObjType")
AppIdCodes == Codes("AppId")
ClosedEnums == {"AppTextSource", "SysVarType", "BusType", "FunctionBusType", "TriggerConditionStatus"}
FlagEnums == {"ObjFlags", "TriggerFlag", "CanFdFlags"}
ClosedCodes == [e \in ClosedEnums |-> Codes(e)]

SymbolName(e, n) ==
  LET t == SymbolTable(e)
      k == {i \in 1..Len(t) : t[i][1] = n}
  IN  IF k = {} THEN "" ELSE t[CHOOSE i \in k : TRUE][2]

\* --------------------------------------------------------------- type codes
ContainerCode == 10

ClassOf(code) ==
  CASE code = 1 -> "CanMessage"            [] code = 2 -> "CanErrorFrame"
    [] code = 3 -> "CanOverloadFrame"      [] code = 4 -> "CanDriverStatistic"
    [] code = 5 -> "AppTrigger"            [] code \in 6..9 -> "EnvironmentVariable"
    [] code = 10 -> "LogContainer"         [] code = 11 -> "LinMessage"
    [] code = 31 -> "CanDriverError"       [] code = 44 -> "CanDriverHwSync"
    [] code = 51 -> "RealTimeClock"        [] code = 57 -> "LinMessage2"
    [] code = 65 -> "AppText"              [] code = 66 -> "FlexrayVFrReceiveMsgEx"
    [] code = 72 -> "SystemVariable"       [] code = 73 -> "CanErrorFrameExt"
    [] code = 74 -> "CanDriverErrorExt"    [] code = 86 -> "CanMessage2"
    [] code = 91 -> "DriverOverrun"        [] code = 92 -> "EventComment"
    [] code = 96 -> "GlobalMarker"         [] code = 100 -> "CanFdMessage"
    [] code = 101 -> "CanFdMessage64"      [] code = 104 -> "CanFdErrorFrame64"
    [] code = 114 -> "EthernetStatistic"   [] code = 119 -> "DiagRequestInterpretation"
    [] code = 120 -> "EthernetFrameEx"     [] code = 124 -> "FunctionBus"
    [] code = 128 -> "TriggerCondition"
    [] OTHER -> "NotImplementedObject"

\* ------------------------------------------------------------------ layouts
F_CanMessage == <<
      <<"channel", "u", 32, 2, "">>, <<"flags", "u", 34, 1, "">>, <<"dlc", "u", 35, 1, "">>,
      <<"frame_id", "u", 36, 4, "">>, <<"data", "b", 40, 8, "">> >>

F_CanMessage2 == <<
      <<"channel", "u", 32, 2, "">>, <<"flags", "u", 34, 1, "">>, <<"dlc", "u", 35, 1, "">>,
      <<"frame_id", "u", 36, 4, "">>, <<"data", "b", 40, 8, "">>,
      <<"frame_length", "u", 48, 4, "">>, <<"bit_count", "u", 52, 1, "">>,
      <<"reserved1", "u", 53, 1, "">>, <<"reserved2", "u", 54, 2, "">> >>

F_CanFdMessage == <<
      <<"channel", "u", 32, 2, "">>, <<"flags", "u", 34, 1, "">>, <<"dlc", "u", 35, 1, "">>,
      <<"frame_id", "u", 36, 4, "">>, <<"frame_length", "u", 40, 4, "">>,
      <<"arb_bit_count", "u", 44, 1, "">>, <<"canfd_flags", "u", 45, 1, "CanFdFlags">>,
      <<"valid_data_bytes", "u", 46, 1, "">>, <<"reserved1", "u", 47, 1, "">>,
      <<"reserved2", "u", 48, 4, "">>, <<"data", "b", 52, 64, "">>,
      <<"reserved3", "u", 116, 4, "">> >>

F_CanFdMessage64 == <<
      <<"channel", "u", 32, 1, "">>, <<"dlc", "u", 33, 1, "">>,
      <<"valid_data_bytes", "u", 34, 1, "">>, <<"tx_count", "u", 35, 1, "">>,
      <<"frame_id", "u", 36, 4, "">>, <<"frame_length", "u", 40, 4, "">>,
      <<"flags", "u", 44, 4, "CanFdFlags">>, <<"btr_cfg_arb", "u", 48, 4, "">>,
      <<"btr_cfg_data", "u", 52, 4, "">>, <<"time_offset_brs_ns", "u", 56, 4, "">>,
      <<"time_offset_crc_del_ns", "u", 60, 4, "">>, <<"bit_count", "u", 64, 2, "">>,
      <<"dir", "u", 66, 1, "">>, <<"ext_data_offset", "u", 67, 1, "">>, <<"crc", "u", 68, 4, "">> >>

F_CanDriverStatistic == <<
      <<"channel", "u", 32, 2, "">>, <<"bus_load", "u", 34, 2, "">>,
      <<"standard_data_frames", "u", 36, 4, "">>, <<"extended_data_frames", "u", 40, 4, "">>,
      <<"standard_remote_frames", "u", 44, 4, "">>, <<"extended_remote_frames", "u", 48, 4, "">>,
      <<"error_frames", "u", 52, 4, "">>, <<"overload_frames", "u", 56, 4, "">>,
      <<"reserved", "u", 60, 4, "">> >>

F_CanDriverError == <<
      <<"channel", "u", 32, 2, "">>, <<"tx_errors", "u", 34, 1, "">>,
      <<"rx_errors", "u", 35, 1, "">>, <<"error_code", "u", 36, 4, "">> >>

F_CanDriverErrorExt == <<
      <<"channel", "u", 32, 2, "">>, <<"tx_errors", "u", 34, 1, "">>,
      <<"rx_errors", "u", 35, 1, "">>, <<"error_code", "u", 36, 4, "">>,
      <<"flags", "u", 40, 4, "">>, <<"state", "u", 44, 1, "">>, <<"reserved1", "u", 45, 1, "">>,
      <<"reserved2", "u", 46, 2, "">>, <<"reserved3", "a4", 48, 16, "">> >>

F_CanErrorFrame == <<
      <<"channel", "u", 32, 2, "">>, <<"length", "u", 34, 2, "">>, <<"reserved", "u", 36, 4, "">> >>

F_CanErrorFrameExt == <<
      <<"channel", "u", 32, 2, "">>, <<"length", "u", 34, 2, "">>, <<"flags", "u", 36, 4, "">>,
      <<"ecc", "u", 40, 1, "">>, <<"position", "u", 41, 1, "">>, <<"dlc", "u", 42, 1, "">>,
      <<"reserved1", "u", 43, 1, "">>, <<"frame_length_in_ns", "u", 44, 4, "">>,
      <<"frame_id", "u", 48, 4, "">>, <<"flags_ext", "u", 52, 2, "">>,
      <<"reserved2", "u", 54, 2, "">>, <<"data", "b", 56, 8, "">> >>

F_CanFdErrorFrame64 == <<
      <<"channel", "u", 32, 1, "">>, <<"dlc", "u", 33, 1, "">>,
      <<"valid_data_bytes", "u", 34, 1, "">>, <<"ecc", "u", 35, 1, "">>,
      <<"flags", "u", 36, 2, "">>, <<"error_code_ext", "u", 38, 2, "">>,
      <<"ext_flags", "u", 40, 2, "">>, <<"ext_data_offset", "u", 42, 1, "">>,
      <<"reserved1", "u", 43, 1, "">>, <<"frame_id", "u", 44, 4, "">>,
      <<"frame_length", "u", 48, 4, "">>, <<"btr_cfg_arb", "u", 52, 4, "">>,
      <<"btr_cfg_data", "u", 56, 4, "">>, <<"time_offset_brs_ns", "u", 60, 4, "">>,
      <<"time_offset_crc_del_ns", "u", 64, 4, "">>, <<"crc", "u", 68, 4, "">>,
      <<"error_position", "u", 72, 2, "">>, <<"reserved2", "u", 74, 2, "">> >>

F_CanDriverHwSync == <<
      <<"channel", "u", 32, 2, "">>, <<"flags", "u", 34, 1, "">>, <<"reserved1", "u", 35, 1, "">>,
      <<"reserved2", "u", 36, 4, "">> >>

F_CanOverloadFrame == <<
      <<"channel", "u", 32, 2, "">>, <<"reserved1", "u", 34, 2, "">>,
      <<"reserved2", "u", 36, 4, "">> >>

F_LinMessage == <<
      <<"channel", "u", 32, 2, "">>, <<"id", "u", 34, 1, "">>, <<"dlc", "u", 35, 1, "">>,
      <<"data", "b", 36, 8, "">>, <<"fsm_id", "u", 44, 1, "">>, <<"fsm_state", "u", 45, 1, "">>,
      <<"header_time", "u", 46, 1, "">>, <<"full_time", "u", 47, 1, "">>, <<"crc", "u", 48, 2, "">>,
      <<"dir", "u", 50, 1, "">>, <<"reserved", "b", 51, 5, "">> >>

F_EthernetFrameEx == <<
      <<"struct_length", "u", 32, 2, "">>, <<"flags", "u", 34, 2, "">>,
      <<"channel", "u", 36, 2, "">>, <<"hardware_channel", "u", 38, 2, "">>,
      <<"frame_duration", "u", 40, 8, "">>, <<"frame_checksum", "u", 48, 4, "">>,
      <<"dir", "u", 52, 2, "">>, <<"frame_length", "u", 54, 2, "">>,
      <<"frame_handle", "u", 56, 4, "">>, <<"reserved", "u", 60, 4, "">> >>

F_EthernetStatistic == <<
      <<"channel", "u", 32, 2, "">>, <<"reserved_1", "u", 34, 2, "">>,
      <<"reserved_2", "u", 36, 4, "">>, <<"rcv_ok_hw", "u", 40, 8, "">>,
      <<"xmit_ok_hw", "u", 48, 8, "">>, <<"rcv_error_hw", "u", 56, 8, "">>,
      <<"xmit_error_hw", "u", 64, 8, "">>, <<"rcv_bytes_hw", "u", 72, 8, "">>,
      <<"xmit_bytes_hw", "u", 80, 8, "">>, <<"rcv_no_buffer_hw", "u", 88, 8, "">>,
      <<"sqi", "s", 96, 2, "">>, <<"hardware_channel", "u", 98, 2, "">>,
      <<"reserved_3", "u", 100, 4, "">> >>

F_FlexrayVFrReceiveMsgEx == <<
      <<"channel", "u", 32, 2, "">>, <<"version", "u", 34, 2, "">>,
      <<"channel_mask", "u", 36, 2, "">>, <<"dir_flags", "u", 38, 2, "">>,
      <<"client_index", "u", 40, 4, "">>, <<"cluster_no", "u", 44, 4, "">>,
      <<"frame_id", "u", 48, 2, "">>, <<"header_crc1", "u", 50, 2, "">>,
      <<"header_crc2", "u", 52, 2, "">>, <<"byte_count", "u", 54, 2, "">>,
      <<"data_count", "u", 56, 2, "">>, <<"cycle", "u", 58, 2, "">>, <<"tag", "u", 60, 4, "">>,
      <<"data", "u", 64, 4, "">>, <<"frame_flags", "u", 68, 4, "">>,
      <<"app_parameter", "u", 72, 4, "">>, <<"frame_crc", "u", 76, 4, "">>,
      <<"frame_length_ns", "u", 80, 4, "">>, <<"frame_id1", "u", 84, 2, "">>,
      <<"pdu_offset", "u", 86, 2, "">>, <<"blf_log_mask", "u", 88, 2, "">>,
      <<"reserved", "b", 90, 26, "">> >>

F_DiagRequestInterpretation == <<
      <<"diag_description_handle", "u", 32, 4, "">>, <<"diag_variant_handle", "u", 36, 4, "">>,
      <<"diag_service_handle", "u", 40, 4, "">>, <<"ecu_qualifier_length", "u", 44, 4, "">>,
      <<"variant_qualifier_length", "u", 48, 4, "">>,
      <<"service_qualifier_length", "u", 52, 4, "">> >>

F_AppText == <<
      <<"source", "u", 32, 4, "AppTextSource">>, <<"reserved1", "u", 36, 4, "">>,
      <<"text_length", "u", 40, 4, "">>, <<"reserved2", "u", 44, 4, "">> >>

F_AppTrigger == <<
      <<"pre_trigger_time", "u", 32, 8, "">>, <<"post_trigger_time", "u", 40, 8, "">>,
      <<"channel", "u", 48, 2, "">>, <<"flags", "u", 50, 2, "TriggerFlag">>,
      <<"app_specific", "u", 52, 4, "">> >>

F_EnvironmentVariable == <<
      <<"name_length", "u", 32, 4, "">>, <<"data_length", "u", 36, 4, "">>,
      <<"reserved", "u", 40, 8, "">> >>

F_SystemVariable == <<
      <<"type", "u", 32, 4, "SysVarType">>, <<"representation", "u", 36, 4, "">>,
      <<"reserved1", "u", 40, 8, "">>, <<"name_length", "u", 48, 4, "">>,
      <<"data_length", "u", 52, 4, "">>, <<"reserved2", "u", 56, 8, "">> >>

F_RealTimeClock == <<
      <<"time", "u", 32, 8, "">>, <<"logging_offset", "u", 40, 8, "">> >>

F_DriverOverrun == <<
      <<"bus_type", "u", 32, 4, "BusType">>, <<"channel", "u", 36, 2, "">>,
      <<"reserved", "u", 38, 2, "">> >>

F_EventComment == <<
      <<"commented_event_type", "u", 32, 4, "">>, <<"text_length", "u", 36, 4, "">>,
      <<"reserved", "u", 40, 8, "">> >>

F_GlobalMarker == <<
      <<"commented_event_type", "u", 32, 4, "">>, <<"foreground_color", "u", 36, 4, "">>,
      <<"background_color", "u", 40, 4, "">>, <<"is_relocatable", "u", 44, 1, "">>,
      <<"reserved1", "u", 45, 1, "">>, <<"reserved2", "u", 46, 2, "">>,
      <<"group_name_length", "u", 48, 4, "">>, <<"marker_name_length", "u", 52, 4, "">>,
      <<"description_length", "u", 56, 4, "">>, <<"reserved3", "u", 60, 4, "">>,
      <<"reserved4", "u", 64, 8, "">> >>

F_FunctionBus == <<
      <<"object_type", "u", 32, 4, "FunctionBusType">>, <<"ve_type", "u", 36, 4, "">>,
      <<"name_length", "u", 40, 4, "">>, <<"data_length", "u", 44, 4, "">> >>

F_TriggerCondition == <<
      <<"state", "u", 32, 4, "TriggerConditionStatus">>,
      <<"trigger_block_name_length", "u", 36, 4, "">>,
      <<"trigger_condition_length", "u", 40, 4, "">> >>

F_LinMessage2 == <<
     
      <<"lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.sof", "u", 32, 8, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.event_baudrate", "u", 40, 4, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.channel", "u", 44, 2, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.lin_bus_event.reserved", "b", 46, 2, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.synch_break_length", "u", 48, 8, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.lin_synch_field_event.synch_del_length", "u", 56, 8, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.supplier_id", "u", 64, 2, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.message_id", "u", 66, 2, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.nad", "u", 68, 1, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.id", "u", 69, 1, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.dlc", "u", 70, 1, "">>,
      <<"lin_timestamp_event.lin_msg_descr_event.checksum_model", "u", 71, 1, "">>,
      <<"lin_timestamp_event.databyte_timestamps", "a8", 72, 72, "">>, <<"data", "b", 144, 8, "">>,
      <<"crc", "u", 152, 2, "">>, <<"direction", "u", 154, 1, "">>,
      <<"simulated", "u", 155, 1, "">>, <<"is_etf", "u", 156, 1, "">>,
      <<"etf_assoc_index", "u", 157, 1, "">>, <<"etf_assoc_etf_id", "u", 158, 1, "">>,
      <<"fsm_id", "u", 159, 1, "">>, <<"fsm_state", "u", 160, 1, "">>,
      <<"reserved", "b", 161, 3, "">> >>

F_LinMessage2_V2 == <<
      <<"resp_baudrate", "u", 164, 4, "">> >>

F_LinMessage2_V3 == <<
      <<"exact_header_baudrate", "f", 168, 8, "">>, <<"early_stopbit_offset", "u", 176, 4, "">>,
      <<"early_stopbit_offset_response", "u", 180, 4, "">> >>

F_LinBusEvent == <<
      <<"sof", "u", 0, 8, "">>, <<"event_baudrate", "u", 8, 4, "">>, <<"channel", "u", 12, 2, "">>,
      <<"reserved", "b", 14, 2, "">> >>

F_LinSynchFieldEvent == <<
      <<"lin_bus_event.sof", "u", 0, 8, "">>, <<"lin_bus_event.event_baudrate", "u", 8, 4, "">>,
      <<"lin_bus_event.channel", "u", 12, 2, "">>, <<"lin_bus_event.reserved", "b", 14, 2, "">>,
      <<"synch_break_length", "u", 16, 8, "">>, <<"synch_del_length", "u", 24, 8, "">> >>

F_LinMessageDescriptor == <<
      <<"lin_synch_field_event.lin_bus_event.sof", "u", 0, 8, "">>,
      <<"lin_synch_field_event.lin_bus_event.event_baudrate", "u", 8, 4, "">>,
      <<"lin_synch_field_event.lin_bus_event.channel", "u", 12, 2, "">>,
      <<"lin_synch_field_event.lin_bus_event.reserved", "b", 14, 2, "">>,
      <<"lin_synch_field_event.synch_break_length", "u", 16, 8, "">>,
      <<"lin_synch_field_event.synch_del_length", "u", 24, 8, "">>,
      <<"supplier_id", "u", 32, 2, "">>, <<"message_id", "u", 34, 2, "">>,
      <<"nad", "u", 36, 1, "">>, <<"id", "u", 37, 1, "">>, <<"dlc", "u", 38, 1, "">>,
      <<"checksum_model", "u", 39, 1, "">> >>

F_LinDatabyteTimestampEvent == <<
      <<"lin_msg_descr_event.lin_synch_field_event.lin_bus_event.sof", "u", 0, 8, "">>,
      <<"lin_msg_descr_event.lin_synch_field_event.lin_bus_event.event_baudrate", "u", 8, 4, "">>,
      <<"lin_msg_descr_event.lin_synch_field_event.lin_bus_event.channel", "u", 12, 2, "">>,
      <<"lin_msg_descr_event.lin_synch_field_event.lin_bus_event.reserved", "b", 14, 2, "">>,
      <<"lin_msg_descr_event.lin_synch_field_event.synch_break_length", "u", 16, 8, "">>,
      <<"lin_msg_descr_event.lin_synch_field_event.synch_del_length", "u", 24, 8, "">>,
      <<"lin_msg_descr_event.supplier_id", "u", 32, 2, "">>,
      <<"lin_msg_descr_event.message_id", "u", 34, 2, "">>,
      <<"lin_msg_descr_event.nad", "u", 36, 1, "">>, <<"lin_msg_descr_event.id", "u", 37, 1, "">>,
      <<"lin_msg_descr_event.dlc", "u", 38, 1, "">>,
      <<"lin_msg_descr_event.checksum_model", "u", 39, 1, "">>,
      <<"databyte_timestamps", "a8", 40, 72, "">> >>

F_SystemTime == <<
      <<"year", "u", 0, 2, "">>, <<"month", "u", 2, 2, "">>, <<"day_of_week", "u", 4, 2, "">>,
      <<"day", "u", 6, 2, "">>, <<"hour", "u", 8, 2, "">>, <<"minute", "u", 10, 2, "">>,
      <<"second", "u", 12, 2, "">>, <<"milliseconds", "u", 14, 2, "">> >>

F_FileStatistics == <<
      <<"signature", "b", 0, 4, "">>, <<"statistics_size", "u", 4, 4, "">>,
      <<"api_number", "u", 8, 4, "">>, <<"application_id", "u", 12, 1, "AppId">>,
      <<"compression_level", "u", 13, 1, "">>, <<"application_major", "u", 14, 1, "">>,
      <<"application_minor", "u", 15, 1, "">>, <<"file_size", "u", 16, 8, "">>,
      <<"uncompressed_file_size", "u", 24, 8, "">>, <<"object_count", "u", 32, 4, "">>,
      <<"application_build", "u", 36, 4, "">>, <<"measurement_start_time.year", "u", 40, 2, "">>,
      <<"measurement_start_time.month", "u", 42, 2, "">>,
      <<"measurement_start_time.day_of_week", "u", 44, 2, "">>,
      <<"measurement_start_time.day", "u", 46, 2, "">>,
      <<"measurement_start_time.hour", "u", 48, 2, "">>,
      <<"measurement_start_time.minute", "u", 50, 2, "">>,
      <<"measurement_start_time.second", "u", 52, 2, "">>,
      <<"measurement_start_time.milliseconds", "u", 54, 2, "">>,
      <<"last_object_time.year", "u", 56, 2, "">>, <<"last_object_time.month", "u", 58, 2, "">>,
      <<"last_object_time.day_of_week", "u", 60, 2, "">>,
      <<"last_object_time.day", "u", 62, 2, "">>, <<"last_object_time.hour", "u", 64, 2, "">>,
      <<"last_object_time.minute", "u", 66, 2, "">>, <<"last_object_time.second", "u", 68, 2, "">>,
      <<"last_object_time.milliseconds", "u", 70, 2, "">>,
      <<"restore_points_offset", "u", 72, 8, "">>, <<"reserved", "b", 80, 64, "">> >>

F_ObjectHeaderBase == <<
      <<"signature", "b", 0, 4, "">>, <<"header_size", "u", 4, 2, "">>,
      <<"header_version", "u", 6, 2, "">>, <<"object_size", "u", 8, 4, "">>,
      <<"object_type", "u", 12, 4, "ObjType">> >>

F_BaseIn == <<
      <<"base.signature", "b", 0, 4, "">>, <<"base.header_size", "u", 4, 2, "">>,
      <<"base.header_version", "u", 6, 2, "">>, <<"base.object_size", "u", 8, 4, "">>,
      <<"base.object_type", "u", 12, 4, "ObjType">> >>

F_HBase == <<
      <<"header.base.signature", "b", 0, 4, "">>, <<"header.base.header_size", "u", 4, 2, "">>,
      <<"header.base.header_version", "u", 6, 2, "">>, <<"header.base.object_size", "u", 8, 4, "">>,
      <<"header.base.object_type", "u", 12, 4, "ObjType">> >>

F_Obj == <<
      <<"object_flags", "u", 16, 4, "ObjFlags">>, <<"client_index", "u", 20, 2, "">>,
      <<"object_version", "u", 22, 2, "">>, <<"object_time_stamp", "u", 24, 8, "">> >>

F_Var == <<
      <<"object_flags", "u", 16, 4, "ObjFlags">>, <<"object_static_size", "u", 20, 2, "">>,
      <<"object_version", "u", 22, 2, "">>, <<"object_time_stamp", "u", 24, 8, "">> >>

F_HObj == F_HBase \o <<
      <<"header.object_flags", "u", 16, 4, "ObjFlags">>, <<"header.client_index", "u", 20, 2, "">>,
      <<"header.object_version", "u", 22, 2, "">>, <<"header.object_time_stamp", "u", 24, 8, "">> >>

F_HVar == F_HBase \o <<
      <<"header.object_flags", "u", 16, 4, "ObjFlags">>,
      <<"header.object_static_size", "u", 20, 2, "">>, <<"header.object_version", "u", 22, 2, "">>,
      <<"header.object_time_stamp", "u", 24, 8, "">> >>


\* opt sections of LinMessage2: the object holds them when its size says so
Lin2End1 == 164
Lin2End2 == 168
Lin2End3 == 184

FixedFields(cls) ==
  CASE cls = "CanMessage" -> F_HObj \o F_CanMessage
    [] cls = "CanMessage2" -> F_HObj \o F_CanMessage2
    [] cls = "CanFdMessage" -> F_HObj \o F_CanFdMessage
    [] cls = "CanFdMessage64" -> F_HObj \o F_CanFdMessage64
    [] cls = "CanDriverStatistic" -> F_HObj \o F_CanDriverStatistic
    [] cls = "CanDriverError" -> F_HObj \o F_CanDriverError
    [] cls = "CanDriverErrorExt" -> F_HObj \o F_CanDriverErrorExt
    [] cls = "CanErrorFrame" -> F_HObj \o F_CanErrorFrame
    [] cls = "CanErrorFrameExt" -> F_HObj \o F_CanErrorFrameExt
    [] cls = "CanFdErrorFrame64" -> F_HObj \o F_CanFdErrorFrame64
    [] cls = "CanDriverHwSync" -> F_HObj \o F_CanDriverHwSync
    [] cls = "CanOverloadFrame" -> F_HObj \o F_CanOverloadFrame
    [] cls = "LinMessage" -> F_HObj \o F_LinMessage
    [] cls = "LinMessage2" -> F_HObj \o F_LinMessage2
    [] cls = "EthernetFrameEx" -> F_HObj \o F_EthernetFrameEx
    [] cls = "EthernetStatistic" -> F_HObj \o F_EthernetStatistic
    [] cls = "FlexrayVFrReceiveMsgEx" -> F_HObj \o F_FlexrayVFrReceiveMsgEx
    [] cls = "DiagRequestInterpretation" -> F_HObj \o F_DiagRequestInterpretation
    [] cls = "AppText" -> F_HObj \o F_AppText
    [] cls = "AppTrigger" -> F_HObj \o F_AppTrigger
    [] cls = "EnvironmentVariable" -> F_HObj \o F_EnvironmentVariable
    [] cls = "SystemVariable" -> F_HObj \o F_SystemVariable
    [] cls = "RealTimeClock" -> F_HObj \o F_RealTimeClock
    [] cls = "DriverOverrun" -> F_HObj \o F_DriverOverrun
    [] cls = "EventComment" -> F_HObj \o F_EventComment
    [] cls = "GlobalMarker" -> F_HObj \o F_GlobalMarker
    [] cls = "FunctionBus" -> F_HVar \o F_FunctionBus
    [] cls = "TriggerCondition" -> F_HVar \o F_TriggerCondition
    [] cls = "LogContainer" -> F_HObj
    [] cls = "NotImplementedObject" -> F_HBase
    [] cls = "ObjectHeaderBase" -> F_ObjectHeaderBase
    [] cls = "ObjectHeader" -> F_BaseIn \o F_Obj
    [] cls = "VarObjectHeader" -> F_BaseIn \o F_Var
    [] cls = "LinBusEvent" -> F_LinBusEvent
    [] cls = "LinSynchFieldEvent" -> F_LinSynchFieldEvent
    [] cls = "LinMessageDescriptor" -> F_LinMessageDescriptor
    [] cls = "LinDatabyteTimestampEvent" -> F_LinDatabyteTimestampEvent
    [] cls = "SystemTime" -> F_SystemTime
    [] cls = "FileStatistics" -> F_FileStatistics

ObjectClasses == {
  "CanMessage", "CanMessage2", "CanFdMessage", "CanFdMessage64", "CanDriverStatistic",
  "CanDriverError", "CanDriverErrorExt", "CanErrorFrame", "CanErrorFrameExt",
  "CanFdErrorFrame64", "CanDriverHwSync", "CanOverloadFrame", "LinMessage", "LinMessage2",
  "EthernetFrameEx", "EthernetStatistic", "FlexrayVFrReceiveMsgEx",
  "DiagRequestInterpretation", "AppText", "AppTrigger", "EnvironmentVariable",
  "SystemVariable", "RealTimeClock", "DriverOverrun", "EventComment", "GlobalMarker",
  "FunctionBus", "TriggerCondition", "LogContainer", "NotImplementedObject" }
StructClasses == {
  "ObjectHeaderBase", "ObjectHeader", "VarObjectHeader", "LinBusEvent", "LinSynchFieldEvent",
  "LinMessageDescriptor", "LinDatabyteTimestampEvent", "SystemTime", "FileStatistics" }
Classes == ObjectClasses \cup StructClasses

\* the kind of tail that follows the fixed part
TailKind(cls) ==
  CASE cls \in {"EnvironmentVariable", "SystemVariable", "EventComment",
                "DiagRequestInterpretation"} -> "parts"
    [] cls \in {"GlobalMarker", "FunctionBus", "TriggerCondition"} -> "concat"
    [] cls = "AppText" -> "text"
    [] cls = "LinMessage2" -> "lin2"
    [] cls = "CanFdMessage64" -> "fd64"
    [] cls = "CanFdErrorFrame64" -> "fderr"
    [] cls \in {"EthernetFrameEx", "FlexrayVFrReceiveMsgEx"} -> "avail"
    [] cls = "LogContainer" -> "rest"
    [] cls = "NotImplementedObject" -> "raw"
    [] OTHER -> "none"

\* variable-length parts: <<name, offset of the 4-byte length, encoding>>
PartsOf(cls) ==
  CASE cls = "EnvironmentVariable" -> << <<"name", 32, "w">>, <<"data", 36, "b">> >>
    [] cls = "SystemVariable" -> << <<"name", 48, "w">>, <<"data", 52, "b">> >>
    [] cls = "EventComment" -> << <<"text", 36, "w">> >>
    [] cls = "DiagRequestInterpretation" ->
         << <<"ecu_qualifier", 44, "8">>, <<"variant_qualifier", 48, "8">>, <<"service_qualifier", 52, "8">> >>
    [] cls = "GlobalMarker" ->
         << <<"group_name", 48, "w">>, <<"marker_name", 52, "w">>, <<"description", 56, "w">> >>
    [] cls = "FunctionBus" -> << <<"name", 40, "w">>, <<"data", 44, "b">> >>
    [] cls = "TriggerCondition" ->
         << <<"trigger_block_name", 36, "w">>, <<"trigger_condition", 40, "w">> >>
    [] cls = "AppText" -> << <<"text", 40, "w">> >>
    [] OTHER -> <<>>

\* the tail's fields <<path, kind, offset, width, symbol>>; offset/width 0: variable
TailFields(cls) ==
  CASE TailKind(cls) \in {"parts", "concat", "text"} ->
         [i \in 1..Len(PartsOf(cls)) |->
            <<PartsOf(cls)[i][1], IF PartsOf(cls)[i][3] = "b" THEN "B" ELSE "S", 0, 0, PartsOf(cls)[i][3]>>]
    [] TailKind(cls) = "lin2" -> F_LinMessage2_V2 \o F_LinMessage2_V3
    [] TailKind(cls) \in {"fd64", "fderr"} ->
         << <<"data", "B", 0, 0, "">>, <<"btr_ext_arb", "u", 0, 4, "">>, <<"btr_ext_data", "u", 0, 4, "">> >>
    [] cls = "EthernetFrameEx" -> << <<"frame_data", "B", 0, 0, "">> >>
    [] cls = "FlexrayVFrReceiveMsgEx" -> << <<"data_bytes", "B", 0, 0, "">> >>
    [] TailKind(cls) = "rest" -> << <<"data", "B", 0, 0, "">> >>
    [] TailKind(cls) = "raw" -> << <<"buffer", "B", 0, 0, "">> >>
    [] OTHER -> <<>>

\* All fields of a class, in canonical order: projections list values in this order
FieldsOf == [cls \in Classes |-> FixedFields(cls) \o TailFields(cls)]
NFixed == [cls \in Classes |-> Len(FixedFields(cls))]
FixedEnd == [cls \in Classes |->
   LET f == FixedFields(cls)  k == Len(f) IN f[k][3] + f[k][4]]

\* codes a class is used for
CodesFor(cls) == {c \in ObjTypeCodes : ClassOf(c) = cls}

\* -------------------------------------------------------------- text codecs
Cp1252 ==
  << 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24,
  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47,
  48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70,
  71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93,
  94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113,
  114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 8364, -1, 8218, 402,
  8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, -1, 381, -1, -1, 8216, 8217, 8220, 8221,
  8226, 8211, 8212, 732, 8482, 353, 8250, 339, -1, 382, 376, 160, 161, 162, 163, 164, 165, 166,
  167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185,
  186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204,
  205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223,
  224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242,
  243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255 >>

WDecodable(b) == \A i \in 1..Len(b) : Cp1252[b[i] + 1] # -1
WDecode(b) == [i \in 1..Len(b) |-> Cp1252[b[i] + 1]]
WByte(c) ==
  IF c < 128 \/ (c >= 160 /\ c < 256) THEN c
  ELSE LET k == {i \in 129..160 : Cp1252[i] = c} IN IF k = {} THEN -1 ELSE (CHOOSE i \in k : TRUE) - 1
WEncodable(s) == \A i \in 1..Len(s) : WByte(s[i]) # -1
WEncode(s) == [i \in 1..Len(s) |-> WByte(s[i])]

\* strict UTF-8.  A character starts at every byte that is not a continuation byte
U8Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
U8Starts(b) == SelectSeq([i \in 1..Len(b) |-> i], LAMBDA i : b[i] < 128 \/ b[i] > 191)
\* the character of n bytes at index i, -1 if it is none
U8Char(b, i, n) ==
  CASE n = 1 -> IF b[i] < 128 THEN b[i] ELSE -1
    [] n = 2 -> IF b[i] >= 194 /\ b[i] < 224 THEN (b[i] - 192) * 64 + b[i+1] - 128 ELSE -1
    [] n = 3 -> IF b[i] >= 224 /\ b[i] < 240
                THEN LET c == (b[i] - 224) * 4096 + (b[i+1] - 128) * 64 + b[i+2] - 128
                     IN  IF c < 2048 \/ (c >= 55296 /\ c < 57344) THEN -1 ELSE c
                ELSE -1
    [] n = 4 -> IF b[i] >= 240 /\ b[i] < 245
                THEN LET c == (b[i] - 240) * 262144 + (b[i+1] - 128) * 4096 + (b[i+2] - 128) * 64 + b[i+3] - 128
                     IN  IF c < 65536 \/ c > 1114111 THEN -1 ELSE c
                ELSE -1
    [] OTHER -> -1
U8Decode(b) ==
  LET s == U8Starts(b) IN
  [k \in 1..Len(s) |-> U8Char(b, s[k], (IF k = Len(s) THEN Len(b) + 1 ELSE s[k+1]) - s[k])]
U8Decodable(b) ==
  /\ b # <<>> => ~U8Cont(b, 1)
  /\ LET s == U8Decode(b) IN \A k \in 1..Len(s) : s[k] # -1

U8One(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
U8Encodable(s) == \A i \in 1..Len(s) : ~(s[i] >= 55296 /\ s[i] < 57344)
U8Encode(s) == Concat([i \in 1..Len(s) |-> U8One(s[i])])

TextDecodable(enc, b) == IF enc = "8" THEN U8Decodable(b) ELSE IF enc = "w" THEN WDecodable(b) ELSE TRUE
TextDecode(enc, b) == IF enc = "8" THEN U8Decode(b) ELSE WDecode(b)
TextEncodable(enc, s) == IF enc = "8" THEN U8Encodable(s) ELSE WEncodable(s)
TextEncode(enc, s) == IF enc = "8" THEN U8Encode(s) ELSE WEncode(s)

\* ----------------------------------------------------------------- decoding
VInt(bytes) == [t |-> "i", v |-> bytes \o Zeros(8 - Len(bytes))]
VNat(n) == VInt(Bytes(n, 4))
VBytes(b) == [t |-> "b", v |-> b]
VText(s) == [t |-> "s", v |-> s]
VZero == VInt(<<>>)
VFloat(b) == [t |-> "f", v |-> b]

Neg(bytes) == bytes[Len(bytes)] >= 128
VSigned(bytes) ==
  IF Neg(bytes) THEN [t |-> "n", v |-> bytes \o Rep(255, 8 - Len(bytes))] ELSE VInt(bytes)

\* symbolic values: unknown type codes and application ids become 0 (UNKNOWN)
Symbolic(f, bytes) ==
  IF f[5] = "ObjType" /\ LE(bytes, 0, Len(bytes)) \notin ObjTypeCodes THEN VZero
  ELSE IF f[5] = "AppId" /\ LE(bytes, 0, Len(bytes)) \notin AppIdCodes THEN VZero
  ELSE VInt(bytes)

DecodeField(f, b, base) ==
  LET raw == Slice(b, base + f[3], f[4]) IN
  CASE f[2] = "u" -> Symbolic(f, raw)
    [] f[2] = "s" -> VSigned(raw)
    [] f[2] = "b" -> VBytes(raw)
    [] f[2] = "f" -> VFloat(raw)
    [] f[2] = "a4" -> [t |-> "I", v |-> [i \in 1..(f[4] \div 4) |-> Slice(raw, 4 * (i - 1), 4) \o Zeros(4)]]
    [] f[2] = "a8" -> [t |-> "I", v |-> [i \in 1..(f[4] \div 8) |-> Slice(raw, 8 * (i - 1), 8)]]

ObjSize(b) == LE(b, 8, 4)
ObjCode(b) == LE(b, 12, 4)

Clip == 16777216
\* offset of part k of class cls in b (declared lengths clipped to keep the sum small)
RECURSIVE PartOff(_, _, _)
PartOff(cls, b, k) ==
  IF k = 1 THEN FixedEnd[cls]
  ELSE PartOff(cls, b, k - 1) + Min2(LE(b, PartsOf(cls)[k-1][2], 4), Clip)
PartLen(cls, b, k) == Min2(LE(b, PartsOf(cls)[k][2], 4), Clip)
PartBytes(cls, b, k) == Slice(b, PartOff(cls, b, k), PartLen(cls, b, k))
PartsEnd(cls, b) == LET n == Len(PartsOf(cls)) IN PartOff(cls, b, n) + PartLen(cls, b, n)

\* application text: one terminating null is not part of the text
Unterminated(raw) == IF raw # <<>> /\ raw[Len(raw)] = 0 THEN SubSeq(raw, 1, Len(raw) - 1) ELSE raw

ExtOff64(b) == b[68]          \* CanFdMessage64.ext_data_offset
ExtOffErr(b) == b[43]         \* CanFdErrorFrame64.ext_data_offset
HasExt(b, ext) == ext # 0 /\ ObjSize(b) >= ext + 8
AvailLen(cls, b) == IF cls = "EthernetFrameEx" THEN LE(b, 54, 2) ELSE LE(b, 56, 2)

\* does decoding a complete object's bytes succeed?
Decodable(cls, b) ==
  /\ Len(b) >= FixedEnd[cls]
  /\ \A i \in 1..NFixed[cls] :
        LET f == FieldsOf[cls][i] IN
        f[5] \in ClosedEnums => LE(b, f[3], f[4]) \in ClosedCodes[f[5]]
  /\ CASE TailKind(cls) \in {"parts", "concat"} ->
            \A k \in 1..Len(PartsOf(cls)) : TextDecodable(PartsOf(cls)[k][3], PartBytes(cls, b, k))
       [] TailKind(cls) = "text" -> WDecodable(PartBytes(cls, b, 1))
       [] TailKind(cls) = "lin2" -> /\ ObjSize(b) >= Lin2End2 => Len(b) >= Lin2End2
                                    /\ ObjSize(b) >= Lin2End3 => Len(b) >= Lin2End3
       [] TailKind(cls) = "fd64" -> HasExt(b, ExtOff64(b)) => Len(b) >= ExtOff64(b) + 8
       [] TailKind(cls) = "fderr" -> HasExt(b, ExtOffErr(b)) => Len(b) >= ExtOffErr(b) + 8
       [] OTHER -> TRUE

TailDecode(cls, b) ==
  CASE TailKind(cls) \in {"parts", "concat"} ->
         [k \in 1..Len(PartsOf(cls)) |->
            IF PartsOf(cls)[k][3] = "b" THEN VBytes(PartBytes(cls, b, k))
            ELSE VText(TextDecode(PartsOf(cls)[k][3], PartBytes(cls, b, k)))]
    [] TailKind(cls) = "text" -> << VText(WDecode(Unterminated(PartBytes(cls, b, 1)))) >>
    [] TailKind(cls) = "lin2" ->
         << IF ObjSize(b) >= Lin2End2 THEN DecodeField(F_LinMessage2_V2[1], b, 0) ELSE VZero >>
         \o IF ObjSize(b) >= Lin2End3 THEN [k \in 1..3 |-> DecodeField(F_LinMessage2_V3[k], b, 0)]
            ELSE << VFloat(Zeros(8)), VZero, VZero >>
    [] TailKind(cls) = "fd64" ->
         LET ext == ExtOff64(b)
             stop == IF ext = 0 THEN Min2(ObjSize(b), Clip) ELSE ext
         IN  << VBytes(Slice(b, 72, stop - 72)) >>
             \o IF HasExt(b, ext) THEN << VInt(Slice(b, ext, 4)), VInt(Slice(b, ext + 4, 4)) >>
                ELSE << VZero, VZero >>
    [] TailKind(cls) = "fderr" ->
         LET ext == ExtOffErr(b)
         IN  << VBytes(Slice(b, 76, b[35])) >>
             \o IF HasExt(b, ext) THEN << VInt(Slice(b, ext, 4)), VInt(Slice(b, ext + 4, 4)) >>
                ELSE << VZero, VZero >>
    [] TailKind(cls) = "avail" -> << VBytes(Slice(b, FixedEnd[cls], AvailLen(cls, b))) >>
    [] TailKind(cls) = "rest" -> << VBytes(From(b, FixedEnd[cls])) >>
    [] TailKind(cls) = "raw" -> << VBytes(b) >>
    [] OTHER -> <<>>

\* the values of all fields, in canonical order (only for Decodable(cls, b))
Decode(cls, b) ==
  [i \in 1..NFixed[cls] |-> DecodeField(FieldsOf[cls][i], b, 0)] \o TailDecode(cls, b)

(* Complete, self-consistent encodings: the object fills its declared size,  *)
(* its parts lie inside it, and whatever no field covers is zero.  Decoding  *)
(* and encoding are inverse exactly on these.                                *)
WellFormedObject(cls, b) ==
  /\ Len(b) >= FixedEnd[cls]
  /\ ObjSize(b) = Len(b)
  /\ Decodable(cls, b)
  /\ ObjCode(b) \in ObjTypeCodes \/ TailKind(cls) = "raw"
  /\ CASE TailKind(cls) \in {"parts", "text"} -> PartsEnd(cls, b) <= Len(b) /\ AllZero(From(b, PartsEnd(cls, b)))
       [] TailKind(cls) = "concat" -> PartsEnd(cls, b) = Len(b)
       [] TailKind(cls) = "lin2" -> /\ Len(b) < Lin2End2 => AllZero(From(b, Lin2End1))
                                    /\ Len(b) >= Lin2End2 /\ Len(b) < Lin2End3 => AllZero(From(b, Lin2End2))
                                    /\ Len(b) >= Lin2End3 => AllZero(From(b, Lin2End3))
       [] TailKind(cls) = "fd64" ->
            LET ext == ExtOff64(b) IN
            ext # 0 => /\ ext >= 72 /\ ext <= Len(b)
                       /\ AllZero(From(b, IF HasExt(b, ext) THEN ext + 8 ELSE ext))
       [] TailKind(cls) = "fderr" ->
            LET ext == ExtOffErr(b)  end == 76 + b[35] IN
            /\ end <= Len(b)
            /\ IF HasExt(b, ext)
               THEN /\ ext >= end /\ AllZero(Slice(b, end, ext - end)) /\ AllZero(From(b, ext + 8))
               ELSE (ext = 0 \/ ext >= end) /\ AllZero(From(b, end))
       [] TailKind(cls) = "avail" -> /\ FixedEnd[cls] + AvailLen(cls, b) <= Len(b)
                                     /\ AllZero(From(b, FixedEnd[cls] + AvailLen(cls, b)))
       [] TailKind(cls) = "none" -> Len(b) = FixedEnd[cls]
       [] OTHER -> TRUE

WellFormed(cls, b) ==
  IF cls \in ObjectClasses THEN WellFormedObject(cls, b)
  ELSE /\ Len(b) = FixedEnd[cls]
       /\ cls = "FileStatistics" => b[13] \in AppIdCodes
       /\ cls \in {"ObjectHeaderBase", "ObjectHeader", "VarObjectHeader"} => ObjCode(b) \in ObjTypeCodes

\* ----------------------------------------------------------------- encoding
\* does the value fit the field's width?
Fits(f, val) ==
  CASE f[2] = "u" -> val.t = "i" /\ \A i \in (f[4] + 1)..8 : val.v[i] = 0
    [] f[2] = "s" -> \/ val.t = "i" /\ (\A i \in (f[4] + 1)..8 : val.v[i] = 0) /\ val.v[f[4]] < 128
                     \/ val.t = "n" /\ (\A i \in (f[4] + 1)..8 : val.v[i] = 255) /\ val.v[f[4]] >= 128
    [] f[2] = "a4" -> val.t = "I" /\ Len(val.v) = f[4] \div 4
                      /\ \A k \in 1..Len(val.v) : \A i \in 5..8 : val.v[k][i] = 0
    [] f[2] = "a8" -> val.t = "I" /\ Len(val.v) = f[4] \div 8
    [] f[2] = "b" -> val.t = "b" /\ Len(val.v) <= f[4]
    [] f[2] = "f" -> val.t = "f"
    [] f[2] = "B" -> val.t = "b"
    [] f[2] = "S" -> val.t = "s" /\ TextEncodable(f[5], val.v)

EncodeField(f, val) ==
  CASE f[2] \in {"u", "s"} -> SubSeq(val.v, 1, f[4])
    [] f[2] = "b" -> val.v \o Zeros(f[4] - Len(val.v))
    [] f[2] = "f" -> val.v
    [] f[2] = "a4" -> Concat([k \in 1..Len(val.v) |-> SubSeq(val.v[k], 1, 4)])
    [] f[2] = "a8" -> Concat(val.v)
    [] f[2] = "B" -> val.v
    [] f[2] = "S" -> TextEncode(f[5], val.v)

FixedEncode(cls, vals) ==
  Concat([i \in 1..NFixed[cls] |-> EncodeField(FieldsOf[cls][i], vals[i])])

PadRight(b, n) == IF Len(b) >= n THEN b ELSE b \o Zeros(n - Len(b))

(* The encoding of field values, for values that fit (Fits) and whose       *)
(* declared size and lengths are consistent (the result is WellFormed).     *)
Encode(cls, vals) ==
  LET fixed == FixedEncode(cls, vals)
      nf == NFixed[cls]
      tv(k) == vals[nf + k]
      tb(k) == EncodeField(FieldsOf[cls][nf + k], tv(k))
      size == IF Len(fixed) >= 16 THEN Min2(LE(fixed, 8, 4), Clip) ELSE 0
      n == Len(TailFields(cls))
  IN CASE TailKind(cls) \in {"parts", "avail"} -> PadRight(fixed \o Concat([k \in 1..n |-> tb(k)]), size)
       [] TailKind(cls) = "text" ->
            LET len == PartLen(cls, fixed, 1)
                e == tb(1)
            IN  PadRight(fixed \o (IF Len(e) < len THEN Append(e, 0) ELSE e), size)
       [] TailKind(cls) \in {"concat", "rest"} -> fixed \o Concat([k \in 1..n |-> tb(k)])
       [] TailKind(cls) = "raw" -> tv(1).v
       [] TailKind(cls) = "lin2" ->
            PadRight(fixed \o (IF size >= Lin2End2 THEN tb(1) ELSE <<>>)
                           \o (IF size >= Lin2End3 THEN tb(2) \o tb(3) \o tb(4) ELSE <<>>), size)
       [] TailKind(cls) \in {"fd64", "fderr"} ->
            LET ext == IF cls = "CanFdMessage64" THEN ExtOff64(fixed) ELSE ExtOffErr(fixed)
                body == fixed \o tb(1)
            IN  IF HasExt(fixed, ext) THEN PadRight(PadRight(body, ext) \o tb(2) \o tb(3), size)
                ELSE PadRight(body, size)
       [] OTHER -> fixed

\* index of a field in the canonical order
FieldIx(cls, path) == CHOOSE i \in 1..Len(FieldsOf[cls]) : FieldsOf[cls][i][1] = path

FileSignature == <<76, 79, 71, 71>>   \* LOGG
ObjSignature == <<76, 79, 66, 74>>    \* LOBJ
FileHeaderSize == 144
=============================================================================
