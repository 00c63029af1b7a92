----------------------------- MODULE MCBuilder -----------------------------
EXTENDS BuilderMachine

(* Text as bytes, for readability *)
a == 97
b == 98
x == 120
y == 121
z == 122
S == Slash
C == Colon
W == Star

Path(p, sub) == [op |-> "path", p |-> p, sub |-> sub]
Get(p, sub) == [op |-> "get", p |-> p, sub |-> sub]
OnPath(p, id, sub) == [op |-> "on_path", p |-> p, id |-> id, sub |-> sub]
OnRoute(p, id, sub) == [op |-> "on_route", p |-> p, id |-> id, sub |-> sub]
Handler(id, sub) == [op |-> "handler", id |-> id, sub |-> sub]
Then(m, on, how, id) == [op |-> "then", method |-> m, on |-> on, how |-> how, id |-> id]
ThenMerge(es) == [op |-> "then_merge", entries |-> es]
Merge(ops) == [op |-> "merge", other |-> ops, tag |-> 0]
MergeTagged(ops, tag) == [op |-> "merge", other |-> ops, tag |-> tag]
E(m, on, id) == [method |-> m, on |-> on, id |-> id]

OptPool == {
  Handler(1, <<>>),
  OnPath(<<S, a>>, 2, <<>>),
  OnPath(<<S, a, S, C, x>>, 3, <<>>),
  OnRoute(<<a>>, 4, <<>>),
  OnRoute(<<C, y>>, 5, << OnRoute(<<b>>, 6, <<>>) >>),
  OnRoute(<<>>, 7, << OnPath(<<W, z, S, a>>, 8, <<>>) >>),
  OnRoute(<<W>>, 9, <<>>),
  Path(<<S, a, S, b>>, <<>>),
  Path(<<C, x, S, S, b>>, << Handler(10, <<>>) >>),
  Path(<<C, z>>, << Path(<<W, x>>, << Handler(11, << OnRoute(<<S, C, y, S>>, 12, <<>>) >>) >>) >>),
  Get(<<a>>, << Handler(13, <<>>) >>),
  Get(<<C, y>>, << OnPath(<<b, S, C, z>>, 14, <<>>), Get(<<a>>, << Handler(15, <<>>) >>) >>),
  Get(<<W, x>>, << Handler(16, <<>>) >>),
  Path(<<>>, << Merge(<< OnPath(<<a>>, 17, <<>>), OnPath(<<C, x>>, 18, <<>>) >>) >>),
  Path(<<C, y>>, << Merge(<< Path(<<C, z, S, W>>, << Handler(19, <<>>) >>), Handler(20, <<>>) >>) >>),
  Path(<<a>>, << MergeTagged(<< OnPath(<<C, z>>, 21, <<>>), Path(<<>>, << MergeTagged(<< OnPath(<<C, y>>, 22, <<>>) >>, 3) >>) >>, 2) >>),
  Path(<<W, z>>, << Merge(<< Path(<<C, x>>, << Merge(<< OnRoute(<<C, y>>, 23, <<>>), Path(<<a, S>>, <<>>) >>) >>) >>) >>)
}

MethPool == {
  Path(<<>>, << Then("GET", 200, "on_get", 1) >>),
  Path(<<S, a>>, << Then("GET", 200, "on", 2), Then("POST", 200, "on_post", 3) >>),
  Path(<<C, x>>, << Then("GET", 200, "on_get", 4) >>),
  Path(<<C, y>>, << Then("POST", 200, "on_post", 5), Path(<<b>>, << Then("GET", 200, "on_get", 6) >>) >>),
  Path(<<W, z>>, << Then("PUT", 200, "on_put", 7), Then("DELETE", 200, "on_delete", 8), Then("PATCH", 200, "on_patch", 9) >>),
  Path(<<W, z>>, << Then("HEAD", 200, "on_head", 10), Then("OPTIONS", 200, "on_options", 11), Then("CONNECT", 200, "on_connect", 12) >>),
  Path(<<C, z>>, << ThenMerge(<< E("GET", 200, 13), E("PUT", 200, 14) >>) >>),
  Path(<<C>>, << Merge(<< Path(<<>>, << Then("GET", 200, "on", 15) >>), Path(<<C, y>>, << Then("POST", 200, "on", 16) >>) >>) >>),
  Path(<<>>, << Merge(<< Path(<<C, x, S, a>>, << Then("GET", 200, "on", 17) >>), Path(<<C, x>>, << Then("GET", 200, "on", 18), Then("PUT", 200, "on", 19) >>) >>) >>),
  Path(<<a, S, C, x>>, << MergeTagged(<< Path(<<W, z>>, << ThenMerge(<< E("GET", 200, 20) >>) >>) >>, 4) >>),
  Get(<<a>>, << Then("GET", 200, "on", 21) >>),
  Get(<<C, z>>, << Then("PUT", 200, "on_put", 22), Path(<<W, y>>, << Then("GET", 200, "on_get", 23) >>) >>)
}

StatPool == {
  Path(<<>>, << Then("GET", 200, "on_get", 1), Then("GET", 404, "on", 2) >>),
  Path(<<C, x>>, << Then("GET", 200, "on", 3) >>),
  Path(<<C, y>>, << Then("GET", 404, "on_get", 4), Then("POST", 200, "on_post", 5) >>),
  Path(<<C, z>>, << ThenMerge(<< E("GET", 200, 12), E("GET", 404, 13), E("PUT", 200, 14) >>) >>),
  Path(<<C, y>>, << Merge(<< Path(<<C, x>>, << Then("GET", 404, "on", 15) >>), Path(<<>>, << Then("GET", 404, "on", 16) >>) >>) >>),
  Path(<<>>, << MergeTagged(<< Path(<<C>>, << Then("GET", 404, "on", 17), Then("POST", 404, "on", 18) >>) >>, 2) >>),
  Get(<<C, x>>, << Then("GET", 200, "merge", 19), Path(<<a>>, << Then("GET", 200, "merge", 20) >>) >>),
  Path(<<a, S, C, y>>, << Then("POST", 404, "merge", 21), Then("POST", 200, "merge", 22) >>)
}

OrPool == {
  Path(<<>>, << Then("GET", 0, "on_get", 1), Then("POST", 1, "on_post", 2) >>),
  Path(<<C, x>>, << Then("GET", 1, "on", 3) >>),
  Path(<<C, y>>, << Then("GET", 0, "on_get", 4), Then("PUT", 1, "merge", 5) >>),
  Path(<<C, y>>, << Merge(<< Path(<<C, x>>, << Then("GET", 1, "on", 6) >>), Path(<<>>, << Then("GET", 1, "on_get", 7), Then("POST", 0, "on", 8) >>) >>) >>),
  Path(<<a>>, << MergeTagged(<< Path(<<W, z>>, << Then("PUT", 0, "on_put", 9) >>), Path(<<>>, << Then("GET", 1, "on", 10) >>) >>, 6) >>),
  Get(<<C, x>>, << Then("GET", 0, "merge", 11), Path(<<a>>, << Then("GET", 1, "on", 12) >>) >>)
}

SOrPool == {
  Path(<<>>, << Then("GET", 400, "on_get", 1), Then("GET", 401, "on_get", 2), Then("GET", 809, "on", 3) >>),
  Path(<<C, x>>, << Then("GET", 401, "on", 4), Then("POST", 808, "on_post", 5) >>),
  Path(<<C, y>>, << ThenMerge(<< E("GET", 400, 6), E("POST", 401, 7), E("GET", 809, 8) >>) >>),
  Path(<<C, z>>, << Merge(<< Path(<<C, x>>, << Then("GET", 401, "on", 9) >>), Path(<<>>, << Then("GET", 809, "on_get", 10) >>) >>) >>),
  Path(<<>>, << MergeTagged(<< Path(<<C>>, << Then("GET", 400, "on", 11), Then("POST", 401, "merge", 12) >>) >>, 7) >>),
  Get(<<C, x>>, << ThenMerge(<< E("GET", 401, 13) >>), Path(<<a>>, << Then("GET", 400, "merge", 14) >>) >>)
}

Top(key, how, sub) == [op |-> "top", key |-> key, how |-> how, sub |-> sub]
TopMergeTagged(other, tag) == [op |-> "top_merge", other |-> other, tag |-> tag]
MTopPool == {
  Top(<<1>>, "get", << Handler(1, <<>>), OnPath(<<S, a, S, C, x>>, 2, <<>>) >>),
  Top(<<1>>, "method", << OnRoute(<<C, y>>, 3, <<>>) >>),
  Top(<<2>>, "post", << OnRoute(<<W, z>>, 4, <<>>) >>),
  Top(<<3>>, "patch", << OnRoute(<<a>>, 5, <<>>) >>),
  Top(<<4>>, "put", << OnRoute(<<a>>, 6, <<>>) >>),
  Top(<<5>>, "delete", << OnRoute(<<a>>, 7, <<>>) >>),
  Top(<<6>>, "options", << OnRoute(<<a>>, 8, <<>>) >>),
  Top(<<7>>, "head", << OnRoute(<<a>>, 9, <<>>) >>),
  Top(<<8>>, "connect", << OnRoute(<<a>>, 10, <<>>) >>),
  [op |-> "top_on", key |-> <<2>>, id |-> 11],
  TopMergeTagged(<< Top(<<1>>, "get", << OnPath(<<C, z>>, 12, <<>>) >>), Top(<<2>>, "method", << OnPath(<<a>>, 13, <<>>) >>) >>, 8)
}
STopPool == {
  Top(<<200>>, "status", << Handler(1, <<>>), OnPath(<<S, a, S, C, x>>, 2, <<>>) >>),
  Top(<<200>>, "status", << OnRoute(<<C, y>>, 3, <<>>) >>),
  Top(<<404>>, "status", << OnRoute(<<W, z>>, 4, <<>>), Path(<<b>>, <<>>) >>),
  [op |-> "top_on", key |-> <<404>>, id |-> 5],
  TopMergeTagged(<< Top(<<200>>, "status", << OnPath(<<C, z>>, 6, <<>>) >>), Top(<<404>>, "status", << OnPath(<<a>>, 7, <<>>) >>) >>, 9)
}

Inner(sub) == [op |-> "inner", sub |-> sub]
TTopPool == {
  Path(<<C, x>>, << Inner(<< Handler(1, <<>>) >>) >>),
  Path(<<C, y>>, << Inner(<< OnPath(<<C, z>>, 2, <<>>), Merge(<< Handler(3, <<>>), OnPath(<<b>>, 4, <<>>) >>) >>) >>),
  OnPath(<<C, y, S, W, z>>, 5, << Inner(<< Path(<<C, x>>, << Merge(<< Handler(6, <<>>) >>) >>) >>) >>),
  Path(<<C, z>>, << Merge(<< OnPath(<<C, x>>, 7, <<>>), Path(<<>>, << Inner(<< Handler(8, <<>>) >>) >>) >>) >>),
  Path(<<C, z>>, << MergeTagged(<< Path(<<W, y>>, << Inner(<< MergeTagged(<< Handler(9, << OnRoute(<<C, y>>, 10, <<>>) >>) >>, 2) >>) >>) >>, 3) >>),
  Path(<<>>, << Merge(<< Path(<<>>, << Inner(<< OnRoute(<<C, z>>, 11, <<>>) >>) >>), OnPath(<<C, z, S, C, y>>, 12, <<>>) >>) >>),
  Get(<<C, y>>, << Handler(13, <<>>), Path(<<a>>, << Inner(<< Handler(14, <<>>) >>) >>) >>),
  Get(<<C>>, << Inner(<< Get(<<C, z>>, << Handler(15, <<>>) >>), Merge(<< Path(<<>>, <<>>) >>) >>) >>)
}

DefPool == {
  Handler(1, <<>>),
  OnPath(<<S, a>>, 2, <<>>),
  Path(<<S, a, S, C, x>>, <<>>),
  OnRoute(<<C, y>>, 3, << Path(<<b>>, << Path(<<W, z>>, <<>>) >>) >>),
  OnPath(<<C, y, S, b, S, C, z>>, 4, <<>>),
  Path(<<W, x>>, << Handler(5, <<>>) >>),
  Get(<<C, z>>, << Handler(6, << OnPath(<<C, z, S, a>>, 7, <<>>) >>) >>),
  Path(<<>>, << Merge(<< Path(<<a, S, C, z>>, <<>>) >>) >>),
  Path(<<C, x>>, << Merge(<< OnPath(<<C, y>>, 8, <<>>), Path(<<b>>, << Merge(<< Path(<<W, y>>, <<>>), Handler(9, <<>>) >>) >>) >>) >>)
}

ThePools(k) == CASE k = "opt" -> OptPool [] k = "def" -> DefPool [] k = "meth" -> MethPool [] k = "stat" -> StatPool [] k = "or" -> OrPool [] k = "sor" -> SOrPool
                    [] k = "ttop" -> TTopPool [] k = "mtop" -> MTopPool [] k = "stop" -> STopPool

PathSet == {<<S>>, <<S, a>>, <<S, b>>, <<S, a, S, b>>, <<S, b, S, a>>, <<S, b, S, S, b>>, <<S, a, S, b, S, a>>, <<S, b, S, b, S, a, S, b>>}
TheProbes(k) ==
  CASE k \in {"opt", "ttop", "def"} -> {[path |-> p, method |-> "GET", status |-> 200] : p \in PathSet}
    [] k = "meth" -> {[path |-> p, method |-> m, status |-> 200] : p \in PathSet, m \in {"GET", "POST", "PUT"}}
                     \cup {[path |-> <<S, b>>, method |-> m, status |-> 200] : m \in {"DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT", "TRACE"}}
    [] k = "or" -> {[path |-> p, method |-> m, status |-> s] : p \in PathSet \ {<<S, b, S, S, b>>, <<S, b, S, b, S, a, S, b>>}, m \in {"GET", "POST", "PUT"}, s \in {200, 503}}
    [] k \in {"stat", "sor"} -> {[path |-> p, method |-> m, status |-> s] : p \in PathSet \ {<<S, b, S, S, b>>, <<S, b, S, b, S, a, S, b>>}, m \in {"GET", "POST", "PUT"}, s \in {200, 404, 503}}
    [] k = "mtop" -> {[path |-> p, method |-> m, status |-> 200] : p \in {<<S>>, <<S, a>>, <<S, b>>, <<S, a, S, b>>, <<S, b, S, a>>},
                                 m \in {"GET", "POST", "PATCH", "PUT", "DELETE", "OPTIONS", "HEAD", "CONNECT", "TRACE"}}
    [] k = "stop" -> {[path |-> p, method |-> "GET", status |-> s] : p \in PathSet, s \in {200, 404, 503}}

TheLookups(k) == IF k \in {"mtop", "stop"} THEN {} ELSE {<<>>, <<a>>, <<b>>, <<C>>, <<W>>, <<a, S, b>>, <<a, S, C>>, <<C, S, C>>, <<C, S, W>>, <<W, S, C>>, <<C, S, S, b>>, <<W, S, C, S, C>>, <<C, S, b, S, C>>}
=============================================================================
