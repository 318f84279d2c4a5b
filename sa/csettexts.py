"""Character sets of MySQL, and statements that select them"""
# Name: the codec of Python that has the same characters (MySQL reference manual, "Character Sets and Collations
# in MySQL"), as used by clients too
CODECS = {
    "big5": "big5", "cp850": "cp850", "latin1": "latin-1", "latin2": "iso8859-2", "ascii": "ascii", "ujis": "euc-jp", "sjis": "shift-jis", "hebrew": "iso8859-8",
    "tis620": "tis-620", "euckr": "euc-kr", "gb2312": "gb2312", "greek": "iso8859-7", "cp1250": "cp1250", "gbk": "gbk", "latin5": "iso8859-9", "utf8": "utf-8",
    "cp866": "cp866", "macroman": "mac-roman", "cp852": "cp852", "latin7": "iso8859-13", "cp1251": "cp1251", "utf16": "utf-16-be", "cp1256": "cp1256",
    "cp1257": "cp1257", "utf32": "utf-32-be", "cp932": "cp932", "gb18030": "gb18030", "utf8mb4": "utf-8",
}
# these have no codec of that name
OTHER_CODECS = {"koi8r": "koi8-r", "koi8u": "koi8-u", "ucs2": "utf-16-be", "utf16le": "utf-16-le", "macce": "mac-latin2", "hp8": "hp-roman8"}
# Default collations
COLLATIONS = {
    "big5": "big5_chinese_ci", "cp850": "cp850_general_ci", "latin1": "latin1_swedish_ci", "latin2": "latin2_general_ci", "ascii": "ascii_general_ci",
    "ujis": "ujis_japanese_ci", "sjis": "sjis_japanese_ci", "hebrew": "hebrew_general_ci", "tis620": "tis620_thai_ci", "euckr": "euckr_korean_ci",
    "gb2312": "gb2312_chinese_ci", "greek": "greek_general_ci", "cp1250": "cp1250_general_ci", "gbk": "gbk_chinese_ci", "latin5": "latin5_turkish_ci",
    "utf8": "utf8_general_ci", "cp866": "cp866_general_ci", "macroman": "macroman_general_ci", "cp852": "cp852_general_ci", "latin7": "latin7_general_ci",
    "cp1251": "cp1251_general_ci", "utf16": "utf16_general_ci", "cp1256": "cp1256_general_ci", "cp1257": "cp1257_general_ci", "utf32": "utf32_general_ci",
    "cp932": "cp932_japanese_ci", "gb18030": "gb18030_chinese_ci", "utf8mb4": "utf8mb4_0900_ai_ci",
}
DEFAULT = "utf8mb4"
WAYS = {
    "SET NAMES": ("client", "results"), "SET NAMES ''": ("client", "results"), "SET NAMES COLLATE": ("client", "results"), "SET CHARACTER SET": ("client", "results"),
    "SET CHARSET ''": ("client", "results"), "SET character_set_client": ("client",), "SET character_set_results": ("results",), "SET both": ("client", "results"),
}


def statement(way, x):
    return {
        "SET NAMES": f"SET NAMES {x}", "SET NAMES ''": f"set names '{x.upper()}'", "SET NAMES COLLATE": f"SET NAMES {x} COLLATE {COLLATIONS.get(x, x + '_bin')}",
        "SET CHARACTER SET": f"SET CHARACTER SET {x}", "SET CHARSET ''": f"SET CHARSET '{x}'", "SET character_set_client": f"SET character_set_client = '{x}'",
        "SET character_set_results": f"SET SESSION character_set_results = '{x}'", "SET both": f"SET @@character_set_client = '{x}', @@session.character_set_results = \"{x}\"",
    }[way]


def texts():
    for x in CODECS:
        for way in WAYS:
            yield statement(way, x)
    yield "SET NAMES DEFAULT"
    yield "SET CHARACTER SET DEFAULT"
