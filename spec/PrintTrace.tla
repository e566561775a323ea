----------------------------- MODULE PrintTrace -----------------------------
(***************************************************************************)
(* Judges recorded print-outs, text files and PDF files against Sheets     *)
(* (C19).                                                                  *)
(***************************************************************************)
EXTENDS Sheets, Judge
TraceKey(n) == D.keys[n]
TraceMsg(n) == D.msgs[n]
PrintRules(e) ==
    CASE e.op = "keys" -> KeysRules(e.a, e.r)
      [] e.op = "msgs" -> MsgsRules(e.a, e.r)
      [] e.op = "pdf" -> PdfRules(e.a, e.r)
      [] e.op = "file" -> FileRules(e.a, e.r)
=============================================================================
