---- MODULE DomainsTrace ----
EXTENDS Domains, Replay
====
