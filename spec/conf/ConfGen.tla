------------------------------- MODULE ConfGen ------------------------------
EXTENDS ConfDesign
=============================================================================
