------------------------------ MODULE Overlap ------------------------------
(* Messages whose handlers overlap.

   The client does not wait: the next message arrives while the handlers of
   earlier ones are still at work, several of them at a time. Each message
   takes effect on the texts when it arrives (Editor); its handler brings the
   analysis of the file it is about up to date some time later. Handlers of the
   same file take turns in the order of arrival; everything else interleaves
   freely. Once no handler is at work, the analysis is that of the current
   texts: what is answered then does not depend on the interleaving.

   What the watcher reports may be held back (Debounce): reports wait together
   in pend until some time has passed since the newest of them, whose handler
   then takes them all. A file reported twice is pending once; no report is
   lost. *)
EXTENDS Editor
CONSTANTS MaxFlight, Depth, Debounce
VARIABLES flight, n, known, hist, pend, waiting
ovars == <<disk, buf, fresh, op, flight, n, known, hist, pend, waiting>>
wvars == <<pend, waiting>>

Touched == IF op'.a = "external" THEN DOMAIN op'.ch ELSE {op'.f}
Handlers == {h[1] : h \in flight}
Held == Debounce /\ op'.a = "external"
OInit == /\ Init /\ flight = {} /\ n = 0 /\ known = disk /\ pend = {} /\ waiting = 0
         /\ hist = <<[o |-> [a |-> "start"], x |-> Obs]>>
Arrive == /\ Next /\ Cardinality(Handlers) < MaxFlight
          /\ n' = n + 1
          /\ flight' = flight \cup (IF Held THEN {} ELSE {<<n + 1, f>> : f \in Touched})
          /\ pend' = pend \cup (IF Held THEN Touched ELSE {})
          /\ waiting' = IF Held THEN n + 1 ELSE waiting
          /\ UNCHANGED known
          /\ hist' = Append(hist, [o |-> op', x |-> Obs'])
\* One file of one handler is brought up to date: what is authoritative then.
Commit(h, f) == /\ <<h, f>> \in flight /\ \A g \in 1..(h - 1) : <<g, f>> \notin flight
                /\ known' = [known EXCEPT ![f] = Now(f)]
                /\ flight' = flight \ {<<h, f>>}
                /\ hist' = Append(hist, [o |-> [a |-> "advance", h |-> h], x |-> Obs])
                /\ UNCHANGED <<disk, buf, fresh, op, n>> /\ UNCHANGED wvars
\* A turn in which a handler gets no further.
Turn(h) == /\ h \in Handlers /\ hist[Len(hist)].o # [a |-> "advance", h |-> h]
           /\ hist' = Append(hist, [o |-> [a |-> "advance", h |-> h], x |-> Obs])
           /\ UNCHANGED <<disk, buf, fresh, op, n, known, flight>> /\ UNCHANGED wvars
\* The reports held back have waited long enough.
Elapse == /\ waiting # 0 /\ flight' = flight \cup {<<waiting, f>> : f \in pend}
          /\ pend' = {} /\ waiting' = 0
          /\ hist' = Append(hist, [o |-> [a |-> "elapse"], x |-> Obs])
          /\ UNCHANGED <<disk, buf, fresh, op, n, known>>
Settle == /\ Cardinality(Handlers) + Cardinality(pend) > 1 /\ flight' = {} /\ pend' = {} /\ waiting' = 0 /\ known' = [f \in Files |-> Now(f)]
          /\ hist' = Append(hist, [o |-> [a |-> "settle"], x |-> Obs])
          /\ UNCHANGED <<disk, buf, fresh, op, n>>
ONext == Arrive \/ Settle \/ Elapse \/ \E h \in Handlers : Turn(h) \/ \E f \in Files : Commit(h, f)

\* Only the order of the handlers in flight matters, not their numbers.
HeldBack == (waiting = 0) <=> (pend = {})
Rank(h) == Cardinality({g \in Handlers : g < h})
OView == <<disk, buf, known, pend, {<<Rank(h[1]), h[2]>> : h \in flight}>>

\* The analysis lags only for files some handler is still to bring up to date.
Lags == \A f \in Files : known[f] # Now(f) => (f \in pend \/ \E h \in flight : h[2] = f)
Quiet == flight = {} /\ pend = {} => known = [f \in Files |-> Now(f)]
EmitH == Len(hist) = Depth => PrintT("@@" \o ToJson([steps |-> hist]))
=============================================================================
