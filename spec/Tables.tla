------------------------------- MODULE Tables -------------------------------
(* The published line lists and ranges (rest wavelengths in units of        *)
(* 0.001 Angstrom, flux ratios in units of 1e-6).                           *)
EXTENDS Integers, Sequences

Groups == [Halpha |-> <<"HA6565">>, Hbeta |-> <<"HB4863">>,
           OIII |-> <<"OIII5008", "OIII4960">>, NII |-> <<"NII6550", "NII6585">>,
           SII |-> <<"SII6733", "SII6718">>, OII |-> <<"OII3727", "OII3730">>]

RestWave == [HA6565 |-> 6564600, HB4863 |-> 4862710, OIII5008 |-> 5008240,
             OIII4960 |-> 4960295, NII6550 |-> 6549860, NII6585 |-> 6585270,
             SII6718 |-> 6718294, SII6733 |-> 6732673,
             OII3727 |-> 3727100, OII3730 |-> 3729860]

Ratio == [HA6565 |-> 1000000, HB4863 |-> 1000000, OIII5008 |-> 1000000,
          OIII4960 |-> 333333, NII6550 |-> 333333, NII6585 |-> 1000000,
          SII6718 |-> 261111, SII6733 |-> 1000000,
          OII3727 |-> 1000000, OII3730 |-> 233333]

FullRange == [HA6565 |-> <<6454600, 6674600>>, HB4863 |-> <<4787710, 4932710>>,
              OIII5008 |-> <<4880240, 5118240>>]
LineRange == [HA6565 |-> <<6555600, 6573600>>, HB4863 |-> <<4856710, 4868710>>,
              OIII5008 |-> <<5002290, 5015240>>]
MaskRange == [HA6565 |-> <<6533600, 6599600>>, HB4863 |-> <<4852710, 4872710>>,
              OIII5008 |-> <<4928240, 5038240>>]
Trim1D == [HA6565 |-> <<6480000, 6650000>>, HB4863 |-> <<4800000, 4920000>>,
           OIII5008 |-> <<4950000, 5060000>>, Halpha |-> <<6480000, 6650000>>,
           Hbeta |-> <<4800000, 4920000>>, OIII |-> <<4930000, 5060000>>]
\* sky threshold by band (multiples of the median error), in units of 1e-3
SkyCut == [K |-> 2000, H |-> 3000, J |-> 3000, Y |-> 3000]
=============================================================================
