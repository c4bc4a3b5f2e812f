----------------------------- MODULE LayoutGen ------------------------------
EXTENDS LayoutModel, TLC, Json
GNext == Next /\ PrintT(<<"SCN", ToJson(sys')>>)
=============================================================================
