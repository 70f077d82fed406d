"""Entry point of every check."""
import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp  # noqa: E402  pylint: disable=wrong-import-position

AREAS = {
    'P03': 'a_poscar', 'P04': 'a_poscar', 'P05': 'a_poscar',
    'P06': 'a_kpoints', 'P07': 'a_kpoints',
    'P08': 'a_stream', 'P09': 'a_stream',
    'P22': 'a_doscar', 'P23': 'a_eigenval', 'P24': 'a_chgcar', 'P25': 'a_potcar',
    'P35': 'a_asking', 'P34': 'a_faults', 'P33': 'a_words', 'P32': 'a_parts', 'P31': 'a_threads', 'P30': 'a_report', 'P29': 'a_given', 'P26': 'a_sources', 'P27': 'a_coords', 'P28': 'a_rewrite',
    'P01': 'a_incar', 'P02': 'a_incar',
    'P14': 'a_vasprun', 'P15': 'a_vasprun', 'P16': 'a_vasprun', 'P17': 'a_vasprun',
    'P18': 'a_vasprun', 'P19': 'a_vasprun', 'P20': 'a_vasprun', 'P21': 'a_vasprun',
    'P10': 'a_outcar', 'P11': 'a_outcar', 'P12': 'a_outcar', 'P13': 'a_outcar',
}


def main():
    pid = sys.argv[1]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        with open(sys.argv[3]) as handle:
            replay = json.load(handle)
        os.environ['VERIF_SEED'] = str(replay.get('seed', 1))
        os.environ['VERIF_TIER'] = replay.get('tier', 'quick')
    check = vp.Check(pid, replay)
    try:
        import parsevasp  # pylint: disable=import-outside-toplevel
        if not os.path.abspath(parsevasp.__file__).startswith(vp.REPO + '/'):
            raise vp.Machinery('parsevasp is not the one in /repo: ' + parsevasp.__file__)
        area = importlib.import_module(AREAS[pid])
        getattr(area, 'check_' + pid)(check)
        status = check.finish()
    except vp.Machinery as exc:
        print('MACHINERY ' + str(exc))
        status = 3
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        status = 3
    sys.stdout.flush()
    sys.exit(status)


main()
