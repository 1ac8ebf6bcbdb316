------------------------------ MODULE ErrTerms ------------------------------
(* C22: error values as the code sees them. A term is a base error, a sequence of wraps applied to it, and possibly a *)
(* second base error that is joined with the result. Codes(t) is what a client may be told about t.                 *)
EXTENDS Integers, Sequences, FiniteSets
(* the sentinel classes of golibs/errors, operating system errors, errors of contexts, an error nobody knows, one of *)
(* a type that is not comparable, and errors that came from another service already                                  *)
SentCode == [exist |-> "AlreadyExists", notexist |-> "NotFound", invalid |-> "InvalidArgument", denied |-> "PermissionDenied",
             dataloss |-> "DataLoss", internal |-> "Internal", conflict |-> "FailedPrecondition", exhausted |-> "ResourceExhausted",
             unimpl |-> "Unimplemented", canceled |-> "Canceled",
             enoent |-> "NotFound", eexist |-> "AlreadyExists", eacces |-> "PermissionDenied",
             ctxcanceled |-> "Canceled", ctxdeadline |-> "DeadlineExceeded"]
Unclassed == {"plain", "slice", "closed", "comm"}
StCode == [st_notfound |-> "NotFound", st_exists |-> "AlreadyExists", st_invalid |-> "InvalidArgument", st_denied |-> "PermissionDenied",
           st_unauth |-> "Unauthenticated", st_dataloss |-> "DataLoss", st_exhausted |-> "ResourceExhausted", st_unimpl |-> "Unimplemented",
           st_precond |-> "FailedPrecondition", st_canceled |-> "Canceled", st_deadline |-> "DeadlineExceeded", st_internal |-> "Internal",
           st_unavailable |-> "Unavailable", st_aborted |-> "Aborted", st_range |-> "OutOfRange", st_unknown |-> "Unknown"]
Bases == DOMAIN SentCode \cup Unclassed \cup DOMAIN StCode
Joined == {"", "notexist", "invalid", "conflict", "plain", "closed", "ctxcanceled", "st_notfound", "st_exhausted"}
(* w: %w, e: an embedded object, c: a type with Unwrap, u: a type with Unwrap that is not comparable, m: %w twice,    *)
(* j: joined with an error nobody knows, p: os.PathError, n: odd text, g: already prepared for the client, v: only the text is kept *)
Wraps == {"w", "e", "c", "u", "m", "j", "p", "n", "g", "v"}
Class(code) ==
  CASE code = "NotFound" -> "notexist" [] code = "AlreadyExists" -> "exist" [] code = "InvalidArgument" -> "invalid"
    [] code \in {"PermissionDenied", "Unauthenticated"} -> "denied" [] code = "DataLoss" -> "dataloss"
    [] code = "ResourceExhausted" -> "exhausted" [] code = "Unimplemented" -> "unimpl" [] code = "FailedPrecondition" -> "conflict"
    [] code = "Canceled" -> "canceled" [] code \in {"DeadlineExceeded", "Unknown"} -> "comm" [] OTHER -> "internal"
HttpOK(code, h) ==
  CASE code = "NotFound" -> h = 404 [] code = "InvalidArgument" -> h = 400
    [] code \in {"AlreadyExists", "FailedPrecondition"} -> h = 409
    [] code \in {"Internal", "DataLoss"} -> h >= 500 /\ h <= 599
    [] OTHER -> h >= 400 /\ h <= 599
(* the codes a base error stands for: none if nobody knows it                                                        *)
Base(b) == IF b = "" \/ b \in Unclassed \/ b = "st_unknown" THEN {} ELSE IF b \in DOMAIN SentCode THEN {SentCode[b]} ELSE {StCode[b]}
Say(S) == IF S = {} THEN {"Internal"} ELSE S
RECURSIVE Fold(_, _)
Fold(S, w) == IF w = <<>> THEN S ELSE Fold(IF Head(w) = "v" THEN {} ELSE IF Head(w) = "g" THEN Say(S) ELSE S, Tail(w))
Codes(t) == Say(Fold(Base(t.b), t.w) \cup Base(t.with))
(* an object can be embedded once, and a status without a class is not mixed with other statuses                      *)
Valid(t) == /\ Cardinality({k \in 1..Len(t.w) : t.w[k] = "e"}) <= 1
            /\ t.b = "st_unknown" => t.with = ""
            /\ \A k \in 1..Len(t.w) : t.w[k] = "g" => t.with = ""
(* the sentinels the client (or any caller) recognizes in the term itself                                            *)
SentOf(b) == CASE b = "enoent" -> {"notexist"} [] b = "eexist" -> {"exist"} [] b = "eacces" -> {"denied"}
               [] b \in {"plain", "slice", "ctxcanceled", "ctxdeadline", ""} -> {} [] b \in DOMAIN StCode -> {Class(StCode[b])} [] OTHER -> {b}
RECURSIVE FoldIs(_, _, _)
FoldIs(S, C, w) == IF w = <<>> THEN S
  ELSE IF Head(w) = "v" THEN FoldIs({}, {}, Tail(w))
  ELSE IF Head(w) = "g" THEN FoldIs({Class(c) : c \in Say(C)}, Say(C), Tail(w))
  ELSE FoldIs(S, C, Tail(w))
IsSet(t) == FoldIs(SentOf(t.b), Base(t.b), t.w) \cup SentOf(t.with)
(* failures that the real stack brings about by itself                                                               *)
RealCode == [qlogs_cond |-> "InvalidArgument", qlogs_param |-> "InvalidArgument", del_cond |-> "InvalidArgument", qrec_lcond |-> "InvalidArgument",
  qrec_rcond |-> "InvalidArgument", qrec_rparam |-> "InvalidArgument", qrecs_rcond |-> "InvalidArgument", qrec_start |-> "InvalidArgument",
  qrecs_start |-> "InvalidArgument", count_lcond |-> "InvalidArgument", count_rcond |-> "InvalidArgument", count_start |-> "InvalidArgument",
  update_missing |-> "NotFound", append_missing |-> "NotFound", append_deleted |-> "NotFound", update_deleted |-> "NotFound",
  append_big |-> "InvalidArgument", qrec_many |-> "ResourceExhausted", count_many |-> "ResourceExhausted"]
RealRest == [rest_limit |-> "InvalidArgument", rest_json |-> "InvalidArgument", rest_type |-> "InvalidArgument", rest_notype |-> "InvalidArgument", rest_path |-> "NotFound"]
(* a caller that gave up before may be served or told so; a stopped store or a broken file is a failure               *)
RealSet == [ctx_append |-> {"OK", "Canceled"}, ctx_qrec |-> {"OK", "Canceled"}, ctx_qrecs |-> {"OK", "Canceled"}, ctx_count |-> {"OK", "Canceled"},
  ctx_create |-> {"OK", "Canceled"}, ctx_qlogs |-> {"OK", "Canceled"},
  late_append |-> {"OK", "DeadlineExceeded"}, late_qrec |-> {"OK", "DeadlineExceeded"}, late_qrecs |-> {"OK", "DeadlineExceeded"}, late_count |-> {"OK", "DeadlineExceeded"},
  closed_append |-> {"Internal"}, closed_qrec |-> {"Internal"}, closed_qrecs |-> {"Internal"},
 
  dbclosed_create |-> {"Internal"}, dbclosed_qlogs |-> {"Internal"}, dbclosed_append |-> {"Internal"}, dbclosed_del |-> {"Internal"},
  dbclosed_update |-> {"Internal"}, dbclosed_qrec |-> {"Internal"}, dbclosed_count |-> {"Internal"},
  broken_qrec |-> {"Internal", "DataLoss"}, broken_qrecs |-> {"Internal", "DataLoss"}, broken_append |-> {"Internal", "DataLoss"},
  gone_qrec |-> {"Internal", "DataLoss", "NotFound"}, gone_qrecs |-> {"Internal", "DataLoss", "NotFound"}]
=============================================================================
