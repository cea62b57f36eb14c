# Names of the records in JSON output
KEYS = {
    1: 'Block File Data Start',
    2: 'Block File Data End',
    4: 'Block Font Start',
    5: 'Block Font End',
    10: 'FL Version',
    257: 'Block Font Info Start',
    262: 'Block Names Start',
    271: 'Block MM Font Info Start',
    272: 'Block MM Kerning Start',
    513: 'Block Font Info End',
    518: 'Block Names End',
    527: 'Block MM Font Info End',
    528: 'Block MM Kerning End',
    1024: 'pref_family_name',
    1025: 'full_name',
    1026: 'font_name',
    1027: 'family_name',
    1028: 'weight',
    1029: 'italic_angle',
    1030: 'underline_position',
    1031: 'underline_thickness',
    1034: 'is_fixed_pitch',
    1037: 'copyright',
    1038: 'notice',
    1039: 'source',
    1044: 'unique_id',
    1046: 'version',
    1047: 'slant_angle',
    1048: 'weight_code',
    1054: 'ms_charset',
    1056: 'menu_name',
    1057: 'pcl_id',
    1058: 'vp_id',
    1059: 'pcl_chars_set',
    1060: 'ms_id',
    1061: 'trademark',
    1062: 'designer',
    1063: 'designer_url',
    1064: 'vendor_url',
    1065: 'width',
    1066: 'default_character',
    1068: 'Collection',
    1069: 'License',
    1070: 'License URL',
    1090: 'fond_id',
    1092: 'apple_name',
    1093: 'PostScript Hinting Options',
    1118: 'panose',
    1121: 'vendor',
    1127: 'style_name',
    1128: 'tt_version',
    1129: 'tt_u_id',
    1130: 'version_major',
    1131: 'version_minor',
    1132: 'year',
    1133: 'xuid',
    1134: 'xuid_num',
    1135: 'upm',
    1136: 'PCLT Table',
    1137: 'pref_style_name',
    1138: 'fontnames',
    1139: 'mac_compatible',
    1140: 'Sample Text',
    1141: 'Custom CMAPs',
    1247: 'Primary Instance Locations',
    1250: 'unicodes',
    1253: 'Glyph Unicode Non-BMP',
    1254: 'Primary Instances',
    1255: 'TrueType Zones',
    1261: 'cvt',
    1262: 'prep',
    1263: 'fpgm',
    1264: 'ttinfo',
    1265: 'gasp',
    1266: 'TrueType Stem PPEMs 2 And 3',
    1267: 'font_style',
    1268: 'TrueType Stem PPEMs',
    1269: 'TrueType Stems',
    1270: 'hhea_line_gap',
    1271: 'vdmx',
    1272: 'stemsnaplimit',
    1273: 'TrueType Zone Deltas',
    1274: 'zoneppm',
    1275: 'codeppm',
    1276: 'features',
    1277: 'OpenType Class',
    1278: 'hhea_ascender',
    1279: 'hhea_descender',
    1294: 'Global Guides',
    1295: 'Global Mask',
    1296: 'Global Guide Properties',
    1410: 'MMKernPair',
    1500: 'Encoding',
    1501: 'Encoding Default',
    1502: 'MM Encoding Type',
    1503: 'Master Count',
    1504: 'Master Name',
    1505: 'Master Location',
    1513: 'Axis Count',
    1514: 'Axis Name',
    1515: 'Axis Mappings Count',
    1516: 'Axis Mappings',
    1517: 'weight_vector',
    1523: 'Anisotropic Interpolation Mappings',
    1524: 'TrueType Stem PPEMs 1',
    1530: 'blue_values_num',
    1531: 'other_blues_num',
    1532: 'family_blues_num',
    1533: 'family_other_blues_num',
    1534: 'stem_snap_h_num',
    1535: 'stem_snap_v_num',
    1536: 'PostScript Info',
    1604: 'dropoutppm',
    1742: 'Mapping Mode',
    1743: 'Font Options',
    1744: 'Export Options',
    2001: 'Glyph',
    2007: 'image',
    2008: 'Links',
    2009: 'mask',
    2010: 'Glyph Hinting Options',
    2011: 'mask.metrics',
    2012: 'mark',
    2013: 'Glyph Bitmaps',
    2014: 'TrueTypeTable',
    2015: 'glyph.customdata',
    2016: 'customdata',
    2017: 'glyph.note',
    2018: 'Glyph GDEF Data',
    2019: 'Glyph Sketch',
    2020: 'Glyph Anchors Supplemental',
    2021: 'unicoderanges',
    2022: 'Export PCLT Table',
    2023: 'VSB',
    2024: 'OpenType Metrics Class Flags',
    2025: 'note',
    2026: 'OpenType Kerning Class Flags',
    2027: 'Glyph Origin',
    2028: 'mask.metrics_mm',
    2029: 'Glyph Anchors MM',
    2030: 'Font Flags',
    2031: 'Glyph Guide Properties',
    2032: 'Measurement Line',
    2034: 'Custom Dict',
}
