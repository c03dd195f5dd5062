for t in ("C12_faraday C12_faradays H2O astronomical_unit_BIPM_2006 astronomical_unit_BIPM_2006s feetH2O feet_H2O footH2O foot_H2O ftH2O "
          "fth2o h2o mercuries_0C mercuries_32F mercuries_60F mercury_0C mercury_32F mercury_60F perm_0C perm_23C perms_0C perms_23C "
          "water_39F water_4C water_60F waters_39F waters_4C waters_60F "
          "cm_H2O cmH2O inch_H2O_39F inches_H2O_39F inch_H2O_60F inches_H2O_60F millimeter_Hg_0C millimeters_Hg_0C "
          "inch_Hg_32F inches_Hg_32F inch_Hg_60F inches_Hg_60F").split():
    known("C15", "refused", dict(text=t, got="UnresolvableUnitException"),
          f"the database's spelling {t!r} cannot be looked up: the grammar reads digits within an identifier as an exponent")
