---- MODULE TestGrammar ----
EXTENDS Grammar
ASSUME PrintT(Parse(S("a {{-if $0.a-}} b{{elif eq 3 .x.2}} {{else}}{{for k v in [1 2,-3.5 (cat \"a\\n\")]}}{{let x=3;y=4}}{{/for}}{{/if}} {x\\ ")))
ASSUME PrintT(Parse(S("{{switch $0}} x {{case {a:<z>,b} [_ 3] ?(gt @ 3)}}yes{{/switch}}{{/if}}")))
====
