------------------------ MODULE EphemerisReanimationMC ------------------------
EXTENDS EphemerisReanimation
=============================================================================
