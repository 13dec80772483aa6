------------------------------- MODULE MCTrimming -----------------------------
EXTENDS Trimming
===============================================================================
