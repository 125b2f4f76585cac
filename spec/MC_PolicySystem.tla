--------------------------- MODULE MC_PolicySystem ----------------------------
EXTENDS PolicySystem
MCPaths == { <<>>, <<"a">>, <<"a", "b">>, <<"a", "c">>, <<"b">>, <<"b", "c">> }
ASSUME EmitVersions
===============================================================================
