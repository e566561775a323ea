------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* Which keys and messages the options of a command select (C20).          *)
(*   o: all, ids, keepers (or to), from, or, used, unused, comp, expired,  *)
(*      invalid, valid (days, -1 when not given)                           *)
(*   k: id, keepers, used, comp, expm;  m: id, rcpt, from                  *)
(* now and expm in minutes. Ids, keepers and so on are comparable values,  *)
(* sets for the options and the keepers of a key.                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

Expired(k, now) == now > k.expm
ValidFor(k, days, now) == now + days * 1440 < k.expm
Station(given, has, any) == given = {} \/ (IF any THEN given \cap has # {} ELSE given \subseteq has)

SelectsKey(o, k, now) ==
    \/ o.all
    \/ /\ ~o.all /\ o.ids # {}
       /\ k.id \in o.ids
    \/ /\ ~o.all /\ o.ids = {}
       /\ Station(o.keepers, k.keepers, o.or)
       /\ o.used => k.used
       /\ o.unused => ~k.used
       /\ o.comp => k.comp
       /\ o.expired => Expired(k, now)
       /\ o.invalid => k.comp \/ Expired(k, now)
       /\ o.valid >= 0 => ~k.comp /\ ValidFor(k, o.valid, now)

SelectsMsg(o, m) ==
    \/ o.all
    \/ /\ ~o.all /\ o.ids # {}
       /\ m.id \in o.ids
    \/ /\ ~o.all /\ o.ids = {}
       /\ Station(o.to, m.rcpt, o.or)
       /\ o.from = {} \/ m.from \in o.from
=============================================================================
