---------------------------- MODULE DivideMCdeep ----------------------------
EXTENDS Divide
=============================================================================
