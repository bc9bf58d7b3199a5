"""MODE/MTD object classes.  Statistic names are <numerator>_<denominator>; each class name is 3 letters:
F/O/A forecast, observation, all;  S/C/A simple, cluster, all;  A/M/U all, matched, unmatched."""
RATIOS = ('fsa_asa osa_asa asm_asa asu_asa fsm_fsa fsu_fsa osm_osa osu_osa fsm_asm osm_asm fsu_asu osu_asu fsa_aaa '
          'osa_aaa fsa_faa fca_faa osa_oaa oca_oaa fca_aca oca_aca fsa_osa osa_fsa aca_asa asa_aca fca_fsa fsa_fca '
          'oca_osa osa_oca').split()


def member(cls, o):
    f, s, m = cls
    return ((f == 'a' or o['fcst_flag'] == (1 if f == 'f' else 0))
            and (s == 'a' or o['simple_flag'] == (1 if s == 's' else 0))
            and (m == 'a' or o['matched_flag'] == (1 if m == 'm' else 0)))


def size(objs, cls, weight=None):
    return sum((o[weight] if weight else 1) for o in objs if member(cls, o))
