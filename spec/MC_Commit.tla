----------------------------- MODULE MC_Commit -----------------------------
EXTENDS Commit
=============================================================================
