# Which monitor program decides each property, and with which build.
def mon(race=False, **kw):
    return dict(bin="mon", race=race, **kw)


def monu(race=True, **kw):
    return dict(bin="monu", race=race, **kw)


PROPS = {
    "C01": mon(), "C02": mon(), "C03": mon(), "C04": mon(), "C05": mon(), "C06": mon(), "C07": mon(),
    "C08": mon(), "C09": mon(), "C10": mon(race=True), "C11": mon(race=True), "C12": mon(race=True),
    "C13": mon(race=True), "C14": mon(), "C15": mon(), "C16": mon(),
    "P01": mon(race=True), "P02": mon(race=True), "P03": mon(race=True), "P04": mon(race=True), "P05": mon(race=True),
    "H01": mon(), "H02": mon(race=True), "H03": mon(), "H04": mon(),
    "K01": mon(), "K02": mon(race=True), "K03": mon(race=True), "K04": mon(race=True), "K05": mon(race=True), "K06": mon(race=True),
    "S01": mon(),
    "M01": mon(), "M02": mon(), "M03": mon(),
    "U01": monu(), "U02": monu(), "U03": monu(), "U04": monu(), "U05": monu(), "U06": monu(), "U07": monu(), "U08": monu(), "U09": monu(), "U10": monu(race=False), "U11": monu(),
}
