NA = []

prop("P01", "NovAtel receiver delivers exactly the valid messages, in order",
     "From any byte stream, however it is cut into reads, the NovAtel receiver delivers every checksum-correct "
     "long- or short-header message once, in stream order, to the handler registered for its type with the header's "
     "week and time, and delivers nothing else. Damaged, truncated, unsupported or wrongly sized messages and noise "
     "neither produce a delivery nor stop later messages from being delivered; the receiver returns normally when "
     "the input ends.",
     ["inputs", "schedules"], "all byte streams, all divisions of a stream into reads, both ways a source can end, "
     "all sets of registered handlers",
     "the tests parse two recorded messages handed over in one piece; damage, cuts, nesting and buffer refills are not tried",
     ["c/nov2sbp/parser/parser.cc", "c/nov2sbp/parser/parser.h"],
     [("sync search, header and length checks, CRC-32", "c/nov2sbp/parser/parser.cc"),
      ("refill of the read buffer", "c/nov2sbp/parser/parser.cc")],
     [("receive buffer", "bytes read and not yet consumed", "c/nov2sbp/parser/parser.h")],
     ["handler callbacks"], technique=TLA,
     note="The generic receiver (Framing.tla) is explored exhaustively for all short streams over a small protocol and all "
          "read sizes; the real parser is run on TLC-generated and random streams and every delivery must be the one the "
          "specification makes. Bounded by the streams generated; trusts the trace driver.")

prop("P02", "NovAtel message fields decode to the values on the wire",
     "Each field of a delivered NovAtel message (best position, best velocity, IMU, attitude, compressed ranges, "
     "ephemerides) has the value that the interface manual's layout assigns to the message's bytes, for all bit "
     "patterns including sign and packed sub-byte fields, and irrespective of the messages decoded before. "
     "The number of compressed range records delivered is the number announced.",
     ["inputs", "histories"], "all message bodies of all supported types and all preceding messages",
     "the tests decode one recorded message of two types and look at a few fields",
     ["c/nov2sbp/parser/parser.cc", "c/nov2sbp/parser/message_*.cc", "c/nov2sbp/parser/binary_header.cc"],
     [("structure overlays and bit-field extraction", "c/nov2sbp/parser/parser.cc")], [],
     ["handler callbacks"], technique=TLA,
     note="Layout tables in NovMessages.tla; every single body bit of every message is set alone, plus random bodies.")

LR = "c/librtcm"
prop("P03", "RTCM observation and station messages decode to what the wire says",
     "Decoding any byte string as an RTCM 3 observation (1001-1004, 1010, 1012, MSM 4-7), station or auxiliary message "
     "(1005-1008, 1029, 1033, 1230, 4062, 4075) yields exactly the field values, validity flags, satellites, signals and "
     "cells that the standard's layout assigns to the bytes. A message that is cut off, has the wrong number or cannot "
     "be represented is reported as an error and never accepted; nothing outside the message is read.",
     ["inputs"], "all byte strings of all lengths for every supported message number",
     "the tests decode messages the library encoded itself, with a few values; boundary values, truncation and foreign encoders are not covered",
     [LR + "/src/decode.c", LR + "/src/msm_utils.c", LR + "/src/bits.c"],
     [("bit layouts, invalid markers, lock time tables, MSM masks", LR + "/src/decode.c")], [],
     ["rtcm3_decode_* result and message struct"], technique=TLA,
     note="RtcmCodec.tla is an independent decoder; messages are random and boundary valued, every single bit of the fixed "
          "part is set alone, every kind is truncated. Bounded by the messages generated.")

prop("P04", "RTCM messages are encoded so that they say what was given",
     "Decoding an encoded observation, MSM 4/5, station, text, bias or proprietary message gives back every field to "
     "within the resolution of the wire format, with exactly the validity that was given. A value the field cannot express is "
     "marked invalid, rolled over or saturated as the standard prescribes and is never silently wrapped, and the "
     "encoded length is exactly what the contents need.",
     ["inputs"], "all message contents, including values at and beyond the limits of a field",
     "the round-trip tests use mid-range values; the limits of each field, rounding carries and full satellite lists are not covered",
     [LR + "/src/encode.c", LR + "/src/bits.c"],
     [("ambiguity, roll-over and rounding arithmetic; validity markers", LR + "/src/encode.c")], [],
     ["encoded bytes"], technique=TLA,
     note="RtcmEncode.tla relates contents to the specification's own decoding of the produced bytes in exact integer "
          "arithmetic. Contents are random and at the limits. Bounded by the contents generated.")

prop("P05", "RTCM ephemerides decode and encode exactly",
     "Decoding a GPS, GLONASS, BeiDou, QZSS or Galileo ephemeris message (1019, 1020, 1042, 1044, 1045, 1046) yields for every "
     "parameter the integer the standard's layout assigns to the bytes, with its sign convention, and rejects cut-off and "
     "wrongly numbered messages and BeiDou GEO satellites. Encoding an ephemeris produces a message of the right length that decodes to the same integers.",
     ["inputs"], "all bit patterns of all six ephemeris messages",
     "the tests decode one recorded message per system and round-trip one; most parameters are positive or zero there",
     [LR + "/src/eph_decode.c", LR + "/src/eph_encode.c"],
     [("field order, width and sign", LR + "/src/eph_decode.c"), ("field order, width and sign", LR + "/src/eph_encode.c")], [],
     ["rtcm_msg_eph, encoded bytes"], technique=TLA,
     note="Layout tables in RtcmEph.tla; every single bit of every message is set alone, plus random and boundary values both ways.")

prop("P06", "RTCM SSR corrections decode to what the wire says",
     "Decoding any byte string as an SSR orbit, clock, combined, code bias or phase bias message of any constellation yields the "
     "header, satellites and correction values that the layout assigns to the bytes. A message that is cut "
     "off or has another number is reported as an error.",
     ["inputs"], "all byte strings of all lengths for every supported SSR message number",
     "the tests decode one recorded message per type; field widths differ per constellation and most combinations are not covered",
     [LR + "/src/ssr_decode.c"],
     [("per-constellation field widths, headers per message kind", LR + "/src/ssr_decode.c")], [],
     ["rtcm_msg_orbit, _clock, _orbit_clock, _code_bias, _phase_bias"], technique=TLA,
     note="RtcmSsr.tla; random messages with up to 63 satellites, all single bits of a one-satellite message, truncations.")

UB = "c/libubx"
prop("P07", "UBX messages decode to the wire's values and encode back to the same bytes",
     "Decoding any byte string as one of the thirteen supported u-blox messages yields exactly the values the interface "
     "description's layout assigns to the bytes, whatever was decoded before; a message of another type, one that is cut "
     "off, or one announcing more elements than can be held is reported with the proper error and never accepted. "
     "Encoding the decoded values gives the original bytes, and the checksum is the 8-bit Fletcher sum of all bytes.",
     ["inputs", "histories"], "all byte strings of all lengths for every message type, any preceding messages",
     "the tests decode messages the library encoded itself, so a field misplaced in both directions passes; truncation and limits are not tried",
     [UB + "/src/decode.c", UB + "/src/encode.c"],
     [("field-by-field decoders", UB + "/src/decode.c"), ("field-by-field encoders", UB + "/src/encode.c")], [],
     ["decoded structures", "encoded bytes", "return codes"], technique=TLA,
     note="Layout tables in UbxCodec.tla, model-checked to cover each payload; every payload bit alone, every truncation, "
          "every count limit, random messages and histories are replayed through the real decoders and encoders.")

UBS = "c/gnss_converters/src/ubx_sbp.c"
EPHS = "c/gnss_converters/src/ubx_ephemeris"
prop("P08", "Every valid UBX frame in a byte stream is converted once, in order",
     "However the input is cut into reads, and whatever noise, damaged, oversized or truncated frames surround it, the UBX to SBP "
     "converter acts once and in order on every frame of the stream whose checksum is right and on nothing else, returns its length, and "
     "forwards MON-HW frames that fit into an SBP message verbatim. At the end of input it returns what the byte source reported and sends nothing more.",
     ["inputs", "schedules"], "all byte streams, all ways of cutting them into reads, both kinds of end of input",
     "the tests feed recorded, undamaged files through one read size",
     [UBS], [("read_ubx_frame: preamble search, length bound, checksum", UBS), ("forwarding of MON-HW", UBS)],
     [("index", "bytes of the current read", UBS)], ["messages passed to the callback", "return value"], technique=TLA,
     note="Framing.tla with UbxProto.tla; model-checked over all short streams and cuts, and replayed with generated streams against the real converter.")
prop("P09", "UBX observations and navigation results become the SBP messages they stand for",
     "For every history of UBX messages the converter sends exactly the SBP observations, positions, attitudes, velocities, "
     "satellite states and GNSS time offsets that the messages mean: right units, signals, flags, counters and GPS time; what SBP cannot "
     "represent is flagged invalid and never wraps. In high-rate mode only high-rate positions and attitudes are sent.",
     ["inputs", "histories"], "all UBX message contents and all orders of messages",
     "recorded files hold one receiver's ordinary values: no week ends, no unrepresentable values, few fix types and signals",
     [UBS], [("message handlers", UBS), ("receiver time to GPS time", UBS), ("16 bit and 24 bit packing", UBS)],
     [("state", "last fix, attitude, time of week, observation time", UBS)], ["messages passed to the callback"], technique=TLA,
     note="UbxToSbp.tla over the decoded values of UbxCodec.tla; values from floating point arithmetic within the last place.")
prop("P10", "Vehicle sensor data keeps its time and counts across wraps, gaps and resets",
     "Odometry, wheel ticks, IMU samples and auxiliary data are sent for exactly the UBX sensor messages that are complete; their times follow "
     "the receiver's clock across the wrap of its counter and of the week; each wheel's ticks accumulate "
     "its own signed movement across the wrap of the tick counter. A gap of more than a second drops one message and restarts the clock; values out of range saturate.",
     ["inputs", "histories"], "all sequences of ESF-MEAS and ESF-RAW messages",
     "recorded files contain no wrap of any counter, no gap and one wheel",
     [UBS], [("handle_esf_meas", UBS), ("handle_esf_raw, set_sbp_imu_time", UBS)],
     [("esf_state", "running times, last tags, tick counts, messages sent", UBS)], ["messages passed to the callback"], technique=TLA,
     note="UbxToSbp.tla; MC_UbxEsf.tla explores every short history around the wraps.")
prop("P11", "An ephemeris from UBX subframes combines pieces of one satellite and one issue",
     "Navigation message pieces of GPS, BeiDou, Galileo and GLONASS satellites arriving in any order, interleaved, repeated, lost or of changing issue "
     "are decoded together only when they are a complete set of one satellite and one issue (superframe, consecutive time), and then each set once; "
     "the resulting ephemeris or nothing is sent. SBAS messages are forwarded with satellite, type, data and time exactly when their parity is right.",
     ["inputs", "histories"], "all sequences of RXM-SFRBX messages of all satellites with all contents",
     "the tests decode one recorded set per system in its natural order",
     [UBS] + [EPHS + f for f in ("/gps.c", "/bds.c", "/gal.c", "/glo.c")],
     [("piece collection per satellite", EPHS + "/gps.c"), ("piece collection", EPHS + "/bds.c"), ("piece collection", EPHS + "/gal.c"),
      ("piece collection and bit reordering", EPHS + "/glo.c"), ("SBAS parity", UBS)],
     [("sat_data", "pieces held and their validity mask", EPHS + "/gps.c")], ["messages passed to the callback", "words handed to the decoder"], technique=TLA,
     note="UbxNav.tla, MC_UbxNav.tla; the navigation decoders of the absent libswiftnav are stand-ins that record what they are given.")

IX = "c/gnss_converters/src/ixcom_sbp.c"
prop("P12", "Every iXCOM message of a byte stream is found once and becomes its SBP messages",
     "However the input is cut and whatever noise, damaged, truncated or over- and undersized messages surround it, the iXCOM to SBP converter "
     "never stops early or aborts, and sends for every IMU and wheel message of the right length and checksum, once and in order, exactly the SBP values it stands for "
     "(saturated where SBP's range ends), and auxiliary data with the first and every hundredth IMU sample. The library's decoders accept nothing else and its encoders invert them.",
     ["inputs", "schedules", "histories"], "all byte streams, all ways of cutting them into reads, all message contents",
     "the tests convert one recorded undamaged message of each kind",
     [IX, "c/libixcom/src/decode.c", "c/libixcom/src/encode.c"],
     [("read_ixcom_frame", IX), ("length and checksum check", "c/libixcom/src/decode.c"), ("unit conversion", IX)],
     [("index, imu_raw_msgs_sent", "bytes of the current message; samples since auxiliary data", IX)],
     ["messages passed to the callback", "return value", "decoded structures"], technique=TLA,
     note="Framing.tla with IxcomProto.tla, model-checked over all short streams; IxcomToSbp.tla for contents.")

RS = "c/gnss_converters/src/rtcm3_sbp.c"
RU = "c/gnss_converters/src/rtcm3_utils.c"
RM = "c/rtcm3tosbp/src/rtcm3tosbp.c"
CB = ["messages passed to the callback"]
prop("P13", "Every valid RTCM frame in a byte stream is converted once, in order",
     "However the input is cut into reads, and whatever noise, damaged, truncated, nested or unsupported frames surround it, the RTCM to SBP "
     "converter acts once and in order on every frame of the stream whose CRC-24Q is right and on nothing else, and stops only when the byte source "
     "has ended. The outcome does not depend on how the stream was cut.",
     ["inputs", "schedules"], "all byte streams, all ways of cutting them into reads, both kinds of end of input",
     "the tests feed recorded, undamaged files",
     [RS, RM], [("rtcm2sbp_process: fifo, preamble search, length, CRC", RS), ("reading loop", RM)],
     [("fifo", "bytes read and not yet consumed", RS)], CB + ["return value"], technique=TLA,
     note="Framing.tla, model-checked over all short streams and cuts; generated streams are replayed against the real converter.")
prop("P14", "RTCM observations are grouped into epochs: each sent once, complete and numbered",
     "The observations of one station (SBP sender) and time, from however many legacy or MSM messages of whatever constellations, are sent as one SBP epoch: "
     "messages of one sender and time, numbered 0 to n-1 of n, at most 14 each and 210 in all, holding every observation once, no later than the message that ends the epoch "
     "or begins another. Observations not later than those sent are dropped; while MSM are received legacy observations are not sent.",
     ["inputs", "histories"], "all sequences of RTCM messages of all stations, times and constellations, including lost, damaged and repeated ones",
     "the tests compare totals over recordings in which nothing is lost, reordered or repeated",
     [RS], [("add_obs_to_buffer, send_observations", RS), ("MSM and legacy handlers, time of last message", RS)],
     [("rtcm3_sbp_state", "epoch being assembled, its station, times of last messages", RS)], CB, technique=TLA,
     note="RtcmToSbp.tla as a state machine; MC_R2SEpoch.tla explores all short histories for completeness, uniqueness and numbering.")
prop("P15", "An RTCM measurement keeps its meaning in SBP units",
     "Every valid signal of an RTCM observation message appears in SBP with its satellite, signal code, pseudorange (2 cm), carrier phase (cycles of its "
     "own wavelength and GLONASS channel), Doppler, signal strength and lock time, with the configured code and GLONASS biases applied; what is invalid, missing or does not fit "
     "is flagged and never appears as a value. Signals that SBP lacks and constellations switched off produce no observation.",
     ["inputs"], "all contents of all observation messages, all options",
     "the tests look at a few recorded values of common signals",
     [RS, RU], [("rtcm3_1002_to_sbp and its kin, rtcm3_msm_to_sbp", RS), ("code tables, C/N0 and lock time conversion", RU)], [], CB, technique=TLA,
     note="R2SObs.tla in exact multi-word integers; every signal and satellite position of every MSM type is tried, and random and extreme contents.")
prop("P16", "Times of RTCM messages are completed to the right GPS week and time",
     "From a reference nearer than half a week (half a day for GLONASS times of day), every time in an RTCM message is completed to the one GPS time it stands for, across week and day ends, "
     "leap seconds and the BeiDou offset; the week numbers of ephemerides across their roll-over. Messages whose time cannot be known yet or lies past the end of the week or day, and GLONASS observations before the leap seconds are known or "
     "far from the GPS time, are not sent.",
     ["inputs", "histories"], "all times of all time scales against all references, all orders of sources of time",
     "recordings sit in the middle of a week; the one roll-over test has one constellation",
     [RS, RU, "c/gnss_converters/src/rtcm3_sbp_ephemeris.c", "c/gnss_converters/src/rtcm3_sbp_ssr.c"],
     [("compute_gps_message_time, compute_glo_time", RS), ("rtcm2sbp time truth and -w/-o", RS)],
     [("time_from_rtcm_obs, leap_seconds, time truth", "what is known of the time", RS)], CB, technique=TLA,
     note="R2STime.tla; MC_R2STime.tla shows over a grid of weeks and times that completion inverts truncation.")
prop("P17", "Concurrent time reports keep the latest; every caller gets a true answer",
     "However calls of several threads interleave, the shared time is always the latest report accepted so far, never goes back, and reads see a whole value (week and time of one report). "
     "A report is answered true exactly when it became the shared time; reports that are invalid, from unknown sources, from before the build's reference week, or of unhealthy or other than GPS ephemerides are refused.",
     ["inputs", "schedules", "histories"], "all interleavings of any number of callers, all reported times",
     "the test runs single calls; a lost update or torn read needs a particular interleaving",
     ["c/gnss_converters/src/time_truth.c"],
     [("load, decide, compare-exchange loop", "c/gnss_converters/src/time_truth.c")],
     [("time_truth", "week, time of week, state in one atomic word", "c/gnss_converters/src/time_truth.c")], ["return values", "time_truth_get"], technique=TLA,
     note="MC_TimeTruth.tla explores every interleaving of the algorithm; TLC's schedules drive the real code access by access, and each history must be linearizable (Trace_TimeTruth.tla).")
prop("P18", "Ephemerides received as RTCM become the SBP ephemerides they stand for",
     "Each GPS, GLONASS, BeiDou, Galileo and QZSS ephemeris message whose satellite SBP can name is sent exactly once with every orbit and clock parameter scaled "
     "exactly, and with right satellite, signal, times, accuracy, validity, health, issue and fit interval; nothing is sent for others.",
     ["inputs"], "all contents of all ephemeris messages",
     "the tests compare one recorded message per constellation with tolerances",
     ["c/gnss_converters/src/rtcm3_sbp_ephemeris.c", RS],
     [("rtcm3_*_eph_to_sbp", "c/gnss_converters/src/rtcm3_sbp_ephemeris.c"), ("accuracy and fit interval tables", "c/gnss_converters/src/rtcm3_sbp_ephemeris.c")], [], CB, technique=TLA,
     note="R2SEph.tla gives each field as an exact dyadic number; random and boundary contents, every accuracy, health and issue value.")
prop("P19", "SSR orbit and clock corrections are joined only within one issue and epoch",
     "An orbit and a clock message of one constellation, epoch and issue are joined, in whichever order they come, into one SBP message for every satellite that has both, with the values of that satellite; "
     "messages of other constellations, epochs or issues are never mixed, and each pair is sent once. Combined, code bias and phase bias messages "
     "are sent completely, satellite by satellite.",
     ["inputs", "histories"], "all contents and orders of SSR messages of all constellations",
     "recordings have both messages with the same satellites in the same order",
     ["c/gnss_converters/src/rtcm3_sbp_ssr.c", RS],
     [("orbit/clock cache and pairing", "c/gnss_converters/src/rtcm3_sbp_ssr.c"), ("bias messages", "c/gnss_converters/src/rtcm3_sbp_ssr.c")],
     [("orbit_clock_cache", "the message waiting for its counterpart, per constellation", "c/gnss_converters/src/rtcm3_sbp_ssr.c")], CB, technique=TLA,
     note="RtcmToSbp.tla; MC_R2SSsr.tla explores all short orders of messages of two constellations, epochs and issues.")
prop("P20", "Station data, texts and raw frames in RTCM become their SBP messages",
     "Station positions, GLONASS biases (1230, or by the receiver's name in 1033 when 1230 has not come for two minutes), texts, SBP messages carried in 4062 and raw SBAS "
     "frames with right parity are sent once each, with their station as sender and exact contents; texts are cut only between characters. What is not supported is reported once and otherwise ignored.",
     ["inputs", "histories"], "all contents and orders of these messages",
     "the tests cover two receiver names, one text and one position",
     [RS, RU], [("rtcm3_1005/1006/1029/1033/1230_to_sbp", RS), ("4062 and 4075", RS), ("bias table", RU)],
     [("last_1230_received, sent_*_warning", "times and flags of what was sent", RS)], CB, technique=TLA,
     note="RtcmToSbp.tla; texts of every length around the limit, every receiver of the table, SBAS frames of every preamble.")

SE = "c/gnss_converters_extra/src"
SR, SC, S2 = SE + "/sbp_rtcm3.c", SE + "/sbp_conv.c", "c/sbp2rtcm/src/sbp2rtcm.c"
OUT = ["RTCM messages given to the output callback"]
prop("P21", "SBP observations of an epoch become its MSM messages, complete and in order",
     "Of the observation messages of one base station and time, in order, everything usable that RTCM can express is sent as one MSM 4 or 5 message per system, once, with the station, "
     "the time in that system's scale and every message but the last marked as followed by others. Each signal appears once with its satellite, signal, "
     "range, phase, Doppler, C/N0 and lock time to the resolution of the message and is invalid where SBP says so. An epoch ends with its last message or with one of another "
     "station or later time; older observations and those flagged for exclusion are never sent.",
     ["inputs", "histories"], "all sequences of observation messages of all stations, times and counts, including lost and repeated ones; all observations",
     "the tests convert recordings forth and back in which every message arrives, and compare roughly",
     [SR, LR + "/src/encode.c"], [("sbp2rtcm_sbp_obs_cb, sbp_buffer_to_rtcm3", SR), ("sbp_buffer_to_msm, sbp_obs_to_msm_signal_data", SR)],
     [("rtcm3_out_state", "observations, sender and time of the epoch being heard", SR)], OUT, technique=TLA,
     note="SbpToRtcm.tla as a state machine; MC_S2REpoch.tla explores all short histories: nothing twice, no mixture of epochs, everything complete. S2RSays.tla relates contents exactly.")
prop("P22", "In legacy mode, epochs become 1004 and 1012 messages that say the same",
     "With legacy output, the GPS and GLONASS observations of an epoch are sent as one 1004 and one 1012 message with station, time (GLONASS time of day) and follow-up mark; each satellite with an L1 observation "
     "appears once, with range, phase, lock and C/N0 of L1 and L2 to the resolution of the message, and marked invalid where SBP says so. GLONASS is left out while its time or channel "
     "is not known. Changing the mode applies to the epoch then sent.",
     ["inputs", "histories"], "all observations and orders of messages, all changes of mode",
     "the tests convert recordings in which every satellite has usual values and every channel is known",
     [SR, LR + "/src/encode.c"], [("sbp_buffer_to_legacy_rtcm3", SR), ("compute_glo_tod_ms", SR)],
     [("rtcm3_out_state", "mode, channels and observations of the epoch being heard", SR)], OUT, technique=TLA,
     note="SbpToRtcm.tla; MC_S2REpoch.tla in legacy mode; S2RSays.tla relates contents.")
prop("P23", "SBP ephemerides become the RTCM ephemerides they stand for",
     "Each GPS, GLONASS, BeiDou and Galileo ephemeris of a signal of its system is sent exactly once as 1019, 1020, 1042, or 1045 or 1046 by the source of the Galileo navigation message, with every orbit and clock "
     "parameter rounded to the resolution of the message, and with the right satellite, week in the system's own scale, times, accuracy index, issue, fit interval and health; "
     "an ephemeris that is not valid or not healthy is never sent as healthy.",
     ["inputs"], "all ephemeris contents within the ranges of the interface documents",
     "the tests convert a recorded set of ephemerides of healthy satellites forth and back",
     [SE + "/sbp_rtcm3_ephemeris.c", SR, LR + "/src/eph_encode.c"],
     [("sbp_*_eph_to_rtcm3", SE + "/sbp_rtcm3_ephemeris.c"), ("sbp2rtcm_sbp_*_eph_cb", SR)], [], OUT, technique=TLA,
     note="S2RSays.tla gives each field in exact arithmetic; random and boundary contents, every accuracy, health and signal value, every quarter hour of the day.")
prop("P24", "Station data, texts and corrections in SBP become their RTCM messages",
     "Base positions are sent as 1006 with the antenna height, followed by 1008 and 1033 with the descriptions when they are configured; GLONASS biases as 1230; texts as 1029; SSR and OSR messages unchanged in 4062, with the sender as station. "
     "Other messages send nothing. The library call and the command line tool give every such message as one whole frame with right length and CRC, in order and once, "
     "however large an epoch and however the input is cut.",
     ["inputs", "histories"], "all contents and orders of these messages; all ways the input is cut; all settings",
     "the tests cover one position and one set of biases",
     [SR, SC, S2], [("sbp_to_rtcm3_1006, 1008, 1033, 1230, 1029, 4062", SR), ("sbp_conv", SC), ("sbp2rtcm_main", S2)],
     [("rtcm3_out_state", "antenna height, descriptions, mode, leap seconds", SR)], OUT + ["sbp_conv buffer", "output of sbp2rtcm"], technique=TLA,
     note="SbpToRtcm.tla; TLC generates the orders of messages and changes of settings; every length of text and payload, three ways to call.")

NV, NH = "c/nov2sbp/src/nov2sbp.cc", "c/nov2sbp/src/swiftnav_conversion_helpers.cc"
NO = ["SBP frames given to nov2sbp's write callback"]
prop("P25", "NovAtel positions, velocities and attitudes become their SBP messages",
     "Every BESTPOS, BESTVEL and INSATT log of a recording becomes one POS_LLH, VEL_NED or ORIENT_EULER message, in order, with the log's time and values to the resolution of the message: height above the "
     "ellipsoid, accuracies in millimetres limited to what fits, the kind of fix. A velocity has the fix of the position of its own time or none. A time message precedes the first position or velocity of every "
     "new time and only that. Damaged logs and other logs send nothing; how the recording is cut does not matter.",
     ["inputs", "histories"], "all recordings of these logs among others, cut in any way",
     "the converter has no tests",
     [NV, NH], [("write_sbp_best_pos, best_vel, ins_att", NV), ("convert_bestpos_to_pos_llh, bestvel_to_vel_ned, insatt_to_orient_euler", NH)],
     [("time_tracker.gps_time, last_position_flags", "last time sent, fix of the last position", NV)], NO, technique=TLA,
     note="NovToSbp.tla; MC_NovSbp.tla explores all short histories of logs; TLC generates histories, contents are random and boundary values, every kind of fix.")
prop("P26", "NovAtel ranges and ephemerides become their SBP messages",
     "The records of a RANGECMP log that SBP can express - GPS and GLONASS signals with valid satellite and values in range - are sent once each and in order, in OBS messages of the log's time numbered without gaps, with exact "
     "range, phase, Doppler, C/N0, lock time code and validity flags, also where the log is empty. A GPSEPHEM log becomes one EPHEMERIS_GPS message with every parameter, or nothing where its numbers do not fit; it never stops the converter.",
     ["inputs"], "all contents of RANGECMP and GPSEPHEM logs with any number of records",
     "the converter has no tests",
     [NV, NH, "c/nov2sbp/src/send_sbp_obs_messages.cc"], [("send_sbp_obs_messages, pack_obs_content", "c/nov2sbp/src/send_sbp_obs_messages.cc"),
     ("convert_rangecmp_record_to_mini_navmeas, convert_gpsephem_to_ephemeris_gps", NH)], [], NO, technique=TLA,
     note="NovToSbp.tla in exact arithmetic; every number of records around the message limits, every signal type, boundary values of every field.")
prop("P27", "NovAtel inertial samples become angular rates and raw samples in true units",
     "Every usable RAWIMUSX sample of a unit whose steps are known is sent as an angular rate and a raw sample with the log's time, scaled by the unit's step and by the real interval since the sample before, also across the end of "
     "a week, or by the unit's nominal rate where that is unknown, limited to what fits. Samples marked as erroneous or encrypted send nothing and do not stop the converter. The description of the scale is sent first and then at most every second and never "
     "withheld longer.",
     ["inputs", "histories"], "all units, sample values, intervals and gaps, also over week ends",
     "the converter has no tests",
     [NV, NH], [("compute_imu_rate, get_imu_scale_gyro, get_imu_scale_accel", NH), ("convert_rawimu_to_angular_rate, imu_raw, imu_aux", NH)],
     [("time_tracker.imu_recv_time, imu_aux_time", "time of the last sample and last description", NV)], NO, technique=TLA,
     note="NovToSbp.tla; MC_NovSbp.tla checks rate and spacing over all short histories of times; every unit, boundary values, gaps up to weeks.")

NM, NS = "c/gnss_converters/src/nmea.c", "c/gnss_converters/src/sbp_nmea.c"
NQ = ["sentences given to the NMEA output callback"]
prop("P28", "NMEA sentences are sent once an epoch, when their parts have come",
     "For every order, loss and repetition of messages, sbp2nmea sends each sentence at most once per epoch of the solution it reports, and as soon as - and only if - the messages it needs all have that epoch's time "
     "(GSA also a whole, not older observation sequence; messages that do not continue the sequence change nothing). Sentences are sent at every rate-th solution of the configured rate, counted from the start of the week, rate 0 never. With "
     "a fused solution, sentences of the solution wait for the end of its message group and GSA, GSV and HDT remain those of GNSS; GNSS mode never waits for a group, fused mode sends no GNSS-only sentence, best mode goes over to the fused "
     "solution when its first group begins. No message stops the converter.",
     ["histories"], "all histories of the messages of any epochs, all modes, rates and solution frequencies of whole milliseconds",
     "the tests replay one recording and one group",
     [NM, NS], [("check_nmea_send, nmea_ready, sbp2nmea, sbp2nmea_obs", NS), ("check_nmea_rate", NM)],
     [("sbp_state, nmea_state.last_tow, obs_seq_*, fused_wagon_complete, actual_mode", "latest messages, what was sent, observation sequence, fused group", NS)], NQ, technique=TLA,
     note="NmeaTiming.tla; MC_Nmea.tla checks the epochs in all orders with losses; TLC's histories, all orders of an epoch's six messages, rates with jitter, observation sequences and a recording are run.")
prop("P29", "NMEA sentences say the solution in SBP, correctly rounded and framed",
     "Every GGA, RMC, VTG, GLL, ZDA, GST, HDT, THS and PUBX sentence is whole - $, fields, right checksum, CR LF - and gives the values of the solution's own messages: UTC time and date rounded to 10 ms with carries into the date, "
     "latitude and longitude within 1e-8 degrees (never 60 minutes), altitude and geoid, speeds, course held below the stationary threshold and left out below the course threshold, error ellipse, DOPs, age, base station; mode, status "
     "and quality by the kind of fix; fields are empty exactly where the value is not known. Bits of the flags beside the mode do not matter.",
     ["inputs", "histories"], "all finite contents of the messages within physical ranges, in all modes",
     "the tests compare the sentences of one recording",
     [NM], [("send_gpgga, send_gprmc, send_gpvtg, send_gpgll, send_gpzda, send_gpgst, send_gphdt, send_gpths, send_pubx, get_utc_time_string, calc_cog_sog", NM)],
     [("last_non_stationary_cog", "course held when slow", NM)], NQ, technique=TLA,
     note="NmeaText.tla gives every field in exact arithmetic, squared where there is a root; boundary and random values, roll-over of every date part, courses around the thresholds.")
prop("P30", "NMEA satellite sentences name exactly the satellites used and seen",
     "GSA lists, by system, the satellites of the observations not excluded by RAIM, each once, at most twelve per system, in the order of their NMEA numbers, GN where there is more than one system, with the fix and DOPs; GSV lists "
     "exactly the satellites of the azimuth and elevation list by system, four to a sentence, numbered, with elevation, azimuth and the strength of the satellite's first signal. Empty lists give one empty sentence.",
     ["inputs", "histories"], "all lists of satellites and signals up to the messages' capacity",
     "the tests compare the sentences of one recording",
     [NM, NS], [("send_gsa, send_gsv, nmea_gsv_print, nmea_get_id, sid_to_talker_id", NM), ("sbp2nmea_obs", NS)], [("nav_sids, num_obs", "satellites of the observations", NS)], NQ, technique=TLA,
     note="NmeaText.tla; every signal code, every count of every system, several signals of a satellite, RAIM flags, lists up to the messages' limits and a recording.")

prop("P31", "The converter programs convert all their input as it comes, as told",
     "For every input, arrival and command line, ubx2sbp, ixcom2sbp and rtcm3tosbp write the SBP messages each frame stands for before they read on, in order and each once; they and nov2sbp use the input to its end and then exit with status 0. "
     "-s or --sender_id N (decimal or 0x hex, in any getopt form, the last counts) is the sender of every message, --hnr moves positions to HNR-PVT, -h ends without reading; rtcm3tosbp takes the time from the last of -w WEEK:SECOND, "
     "-d YEAR:MONTH:DAY:HOUR (UTC) and -s (the clock), refuses times it cannot read and -o without a usable time with a non-zero status before reading, leaves out the observations of the systems named by -G -R -E -C -J -S, and -t prints the clock's GPS week and second.",
     ["inputs", "histories"], "all inputs in all pieces, all command lines of the documented options, clocks not within the minute after a leap second",
     "no test runs the programs, the scripts compare files for a few command lines",
     ["c/ubx2sbp/src/ubx2sbp.c", "c/ixcom2sbp/src/ixcom2sbp.c", "c/rtcm3tosbp/src/rtcm3tosbp.c", "c/nov2sbp/src/nov2sbp.cc"],
     [("ubx2sbp_main, main", "c/ubx2sbp/src"), ("ixcom2sbp_main, main", "c/ixcom2sbp/src"), ("rtcm3tosbp_main, main, time2gps_apply_offset, print_current_gps_time", "c/rtcm3tosbp/src"), ("nov2sbp_main, main", "c/nov2sbp/src")],
     [("constellation_mask, time_truth", "systems left out, time known at the start", "c/rtcm3tosbp/src/rtcm3tosbp.c")], ["bytes read and written by the programs, exit status"], technique=TLA,
     note="CommandLine.tla and the converters' own specifications; MC_CommandLine.tla checks that what is written is what was meant, its command lines and FrameGen's streams are run through main() with reads, writes and clock served.")

prop("P32", "Bit fields are read as they were written, and nothing else changes",
     "In every buffer, at every bit position and for every width up to 32 bits (64 for the long ones): writing an unsigned, two's complement or sign-magnitude field stores the low bits of the value, or its sign and magnitude, "
     "most significant bit first, and changes no bit outside the field; a width the field cannot have (0 is not asked for, more than 32 or 64) changes nothing. Reading gives the field as unsigned, sign-extended or signed by its first bit, "
     "so that every value that fits is read as it was written; sign-magnitude fields of a bit stream come one after the other until the stream ends, which is refused.",
     ["inputs", "histories"], "all buffers, positions, widths and values",
     "the tests of these functions read a few bytes at a few positions",
     ["c/librtcm/src/bits.c", "c/libubx/src/encode.c"],
     [("rtcm_setbitu, rtcm_setbitul, rtcm_setbits, rtcm_setbitsl, rtcm_getbitu, rtcm_getbitul, rtcm_getbits, rtcm_getbitsl, rtcm_set_sign_magnitude_bit, rtcm_get_sign_magnitude_bit, rtcm_get_sign_magnitude_bitstream", "c/librtcm/src/bits.c"),
      ("ubx_setbitul, ubx_setbitsl", "c/libubx/src/encode.c")],
     [], ["buffer after each write, values read"], technique=TLA,
     note="BitField.tla; MC_BitField.tla writes every value in every field of every small buffer and checks that it is read back and that only it changed; every kind and width is run at all places in a byte.")
prop("P33", "Texts of ST receivers are whole, ended, and never past their room",
     "For messages 999 of ST receivers: the firmware version (subtype 25) is given as the message says it, cut to what the buffer of the caller holds with the NUL at its end; the configuration (subtype 2) is the message's "
     "four words of four characters, each word's last character first, up to the first NUL and at most 15 characters; an RF status (subtype 24) that is cut off is refused and one that is taken has the message's time and contents. "
     "Nothing is written outside the caller's buffer or read past the message.",
     ["inputs"], "all messages of these subtypes, all sizes of buffers a caller may give (at least 1, at least 16 for the configuration)",
     "the tests decode one message each",
     ["c/librtcm/src/sta_decode.c"],
     [("sta_decode_fwver, sta_decode_rcc_config, sta_decode_rfstatus", "c/librtcm/src/sta_decode.c")],
     [], ["text and result"], technique=TLA,
     note="StaText.tla; MC_StaText.tla checks all small texts and rooms; every length around the room, NULs at every place, and status messages cut everywhere are run.")
prop("P34", "The programs read INPUT and write OUTPUT as the command line names them",
     "ubx2sbp, ixcom2sbp, rtcm3tosbp, nov2sbp and sbp2rtcm, called as PROGRAM [OPTIONS] [INPUT [OUTPUT]], hand the converter the command line as given and, piece by piece, exactly the bytes of the file INPUT, or of standard input "
     "when none is named, from beginning to end; what the converter writes, each write taken whole, is exactly what OUTPUT, or standard output when none is named, holds after the exit, whatever OUTPUT held before. "
     "No other file changes, and the converter's result is the exit status.",
     ["inputs", "histories"], "all command lines with options first, an INPUT that is an existing file other than OUTPUT and no option value that is the name of a file; all contents, sizes and patterns of reads and writes",
     "the tests of the programs ask for the help text, and once for a conversion with two files",
     ["rust/lib.rs", "rust/ubx2sbp.rs", "rust/ixcom2sbp.rs", "rust/rtcm3tosbp.rs", "rust/nov2sbp.rs", "rust/sbp2rtcm.rs"],
     [("fetch_io, readfn, writefn, CArgs, StdoutFlusher", "rust/lib.rs"), ("main", "rust/*.rs")],
     [("Context", "reader and writer of the converter", "rust/lib.rs")], ["bytes the converter reads, files and standard output after the exit, exit status"], technique=TLA,
     note="ProgramIo.tla; MC_ProgramIo.tla checks for all command lines over all sets of files that what the programs take for INPUT and OUTPUT is what was meant and that copying leaves the whole input there; the repository's Rust programs are built on a C side that reads and writes by plan.")
