------------------------------ MODULE DivideMC ------------------------------
EXTENDS Divide
=============================================================================
