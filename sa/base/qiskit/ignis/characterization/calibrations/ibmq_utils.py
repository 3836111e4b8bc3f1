from collections import defaultdict
from scipy.optimize import least_squares
import numpy as np
from qiskit.pulse import library as pulse_lib, Schedule, Play, ShiftPhase
from qiskit.pulse.schedule import ParameterizedSchedule

def _fit_drag_func(duration, amp, sigma, beta, exp_samples):
    fit_pulse = pulse_lib.drag(duration=duration, amp=amp, sigma=sigma, beta=beta).samples * np.exp(-1j * np.pi / 2)
    return np.concatenate((fit_pulse.real, fit_pulse.imag)) - exp_samples

def get_single_q_pulse(inst_map, qubits):
    fit_params = []
    for q in qubits:
        u2_q = inst_map.get('u2', qubits=q, P0=1, P1=1)
        for _, instr in u2_q.instructions:
            if isinstance(instr, Play):
                pulse_samples = instr.pulse.samples
                pulse_dur = len(pulse_samples)
                pulse_max = np.max(np.abs(pulse_samples))
                pulse_samples = np.concatenate((pulse_samples.real, pulse_samples.imag))
                break

        def fit_func_2(x):
            return _fit_drag_func(pulse_dur, x[0], x[1], x[2], pulse_samples)
        opt_result = least_squares(fit_func_2, [pulse_max, pulse_dur / 4, pulse_max / 5])
        fit_params.append({'amp': opt_result.x[0], 'duration': pulse_dur, 'sigma': opt_result.x[1], 'beta': opt_result.x[2]})
    return fit_params

def update_u_gates(drag_params, pi2_pulse_schedules=None, qubits=None, inst_map=None, drives=None):

    def parametrized_fc(kw_name, phi0, chan, t_offset):

        def _parametrized_fc(**kwargs):
            return ShiftPhase(phase=-kwargs[kw_name] + phi0, channel=chan).shift(t_offset)
        return _parametrized_fc
    for qubit in qubits:
        drive_ch = drives[qubit]
        if pi2_pulse_schedules is None:
            x90_pulse = pulse_lib.drag(**drag_params[qubit])
            x90_sched = Schedule()
            x90_sched += Play(x90_pulse, drive_ch).shift(0)
        else:
            x90_sched = pi2_pulse_schedules[qubit]
        pulse_dur = x90_sched.duration
        for _u2_group in _find_channel_groups('u2', qubits=qubit, inst_map=inst_map):
            if drive_ch in _u2_group:
                break
        else:
            _u2_group = (drive_ch,)
        u2_fc1s = [parametrized_fc('P1', np.pi / 2, ch, 0) for ch in _u2_group]
        u2_fc2s = [parametrized_fc('P0', -np.pi / 2, ch, pulse_dur) for ch in _u2_group]
        for _u3_group in _find_channel_groups('u3', qubits=qubit, inst_map=inst_map):
            if drive_ch in _u3_group:
                break
        else:
            _u3_group = (drive_ch,)
        u3_fc1s = [parametrized_fc('P2', 0, ch, 0) for ch in _u3_group]
        u3_fc2s = [parametrized_fc('P0', -np.pi, ch, pulse_dur) for ch in _u3_group]
        u3_fc3s = [parametrized_fc('P1', np.pi, ch, 2 * pulse_dur) for ch in _u3_group]
        sched_components = [*u2_fc1s, x90_sched, *u2_fc2s]
        schedule1 = ParameterizedSchedule(*sched_components, parameters=['P0', 'P1'], name='u2_%d' % qubit)
        sched_components = [*u3_fc1s, x90_sched, *u3_fc2s, x90_sched.shift(pulse_dur), *u3_fc3s]
        schedule2 = ParameterizedSchedule(*sched_components, parameters=['P0', 'P1', 'P2'], name='u3_%d' % qubit)
        inst_map.add('u2', qubits=qubit, schedule=schedule1)
        inst_map.add('u3', qubits=qubit, schedule=schedule2)

def _find_channel_groups(command, qubits, inst_map):
    params = inst_map.get_parameters(command, qubits=qubits)
    temp_sched = inst_map.get(command, qubits=qubits, **dict(zip(params, np.zeros(len(params)))))
    synced_fcs = defaultdict(list)
    for t_0, inst in temp_sched.instructions:
        if isinstance(inst, ShiftPhase):
            synced_fcs[t_0, inst.phase].extend(inst.channels)
    channel_groups = set()
    for synced_fc in synced_fcs.values():
        channel_groups.add(tuple(synced_fc))
    return list(channel_groups)
