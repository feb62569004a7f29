RULES = {
    "D02": "index:d02",
    "D06": "index:d06",
    "D07": "windows:d07",
    "D09": "accept:d09",
    "D11": "windows:d11",
    "D03": "codec:d03",
    "D04": "codec:d04",
    "D05": "codec:d05",
    "D10": "codec:d10",
    "K01": "threads:k01",
    "K02": "threads:k02",
    "K03": "threads:k03",
    "K04": "listener:k04",
    "K05": "listener:k05",
    "E01": "factory:e01",
    "E02": "defined:e02",
    "E03": "factory:e03",
    "M01": "messages:m01",
    "M02": "messages:m02",
    "M03": "requests:m03",
    "M04": "requests:m04",
    "M05": "routing:m05",
    "R01": "ids:r01",
    "R02": "requests:r02",
    "R03": "ids:r03",
    "R04": "requests:r04",
    "R05": "fidelity:r05",
    "R06": "requests:r06",
    "R07": "requests:r07",
    "U01": "usm:u01",
    "U02": "usm:u02",
    "U03": "usm:u03",
    "U04": "usm:u04",
    "U05": "privacy:u05",
    "U06": "privacy:u06",
    "U07": "keys:u07",
    "U08": "keys:u08",
    "U09": "secrets:u09",
    "U10": "keys:u10",
    "U11": "usm:u11",
}
