import numpy as np
import qiskit
from qiskit.circuit.library import U1Gate, U2Gate
import copy
from collections import defaultdict
from scipy.optimize import least_squares
import qiskit.pulse as pulse
import qiskit.pulse.library as pulse_lib
from qiskit.pulse.macros import measure
from qiskit.pulse import Schedule, Play, ShiftPhase
from qiskit.pulse.schedule import ParameterizedSchedule
from qiskit.ignis.characterization.calibrations.ibmq_utils import _fit_drag_func, _find_channel_groups


def idle(circ, q, n):
    for _ in range(n):
        circ.barrier(q)
        if hasattr(circ, 'i'):
            circ.i(q)
        else:
            circ.iden(q)
    circ.barrier(q)


@of('characterization_utils.pad_id_gates')
def pad_id_gates(circuit, qr, qubit, num_of_id_gates):
    idle(circuit, qr[qubit], num_of_id_gates)
    return circuit


@of('characterization_utils.time_to_ngates')
def time_to_ngates(times, gate_time):
    return np.round(np.array(times)/gate_time).astype(int)


def measure_all(circ, qr, cr, qubits):
    for k, q in enumerate(qubits):
        circ.measure(qr[q], cr[k])


@of('t1_circuits')
def t1_circuits(num_of_gates, gate_time, qubits):
    """Excite, wait, measure."""
    qr = qiskit.QuantumRegister(max(qubits) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for i, n in enumerate(num_of_gates):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 't1circuit_%d_0' % i
        for q in qubits:
            circ.x(qr[q])
            idle(circ, qr[q], n)
        circ.barrier(qr)
        measure_all(circ, qr, cr, qubits)
        circuits.append(circ)
    return circuits, gate_time*np.array(num_of_gates)


@of('t2star_circuits')
def t2star_circuits(num_of_gates, gate_time, qubits, nosc=0):
    """Ramsey: H, wait, phase 2 pi f t, H, measure."""
    xdata = gate_time*np.array(num_of_gates)
    f = nosc/xdata[-1]
    qr = qiskit.QuantumRegister(max(qubits) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for i, n in enumerate(num_of_gates):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 't2starcircuit_%d_0' % i
        for q in qubits:
            circ.h(qr[q])
            idle(circ, qr[q], n)
            circ.append(U1Gate(2*np.pi*f*xdata[i]), [qr[q]])
            circ.h(qr[q])
        circ.barrier(qr)
        measure_all(circ, qr, cr, qubits)
        circuits.append(circ)
    return circuits, xdata, f


@of('t2_circuits')
def t2_circuits(num_of_gates, gate_time, qubits, n_echos=1, phase_alt_echo=False):
    """Y90, then n_echos blocks (wait, echo, wait), Y90; the total delay is 2*n_echos*wait."""
    if n_echos < 1:
        raise ValueError
    qr = qiskit.QuantumRegister(max(qubits) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for i, n in enumerate(num_of_gates):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 't2circuit_%d_0' % i
        for q in qubits:
            circ.append(U2Gate(0.0, 0.0), [qr[q]])
            idle(circ, qr[q], n)
            circ.y(qr[q])
            for echo in range(n_echos - 1):
                idle(circ, qr[q], 2*n)
                if phase_alt_echo and echo % 2 == 0:
                    circ.x(qr[q])
                else:
                    circ.y(qr[q])
            idle(circ, qr[q], n)
            circ.append(U2Gate(0.0, 0.0), [qr[q]])
        circ.barrier(qr)
        measure_all(circ, qr, cr, qubits)
        circuits.append(circ)
    return circuits, 2*gate_time*np.array(num_of_gates)*n_echos


@of('ampcal_1Q_circuits')
def ampcal_1Q_circuits(max_reps, qubits):
    """One Y90, then an even number of Y90."""
    xdata = 2*np.arange(max_reps)
    qr = qiskit.QuantumRegister(max(qubits) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for i, reps in enumerate(xdata):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 'ampcal1Qcircuit_%d_0' % i
        for q in qubits:
            circ.append(U2Gate(0.0, 0.0), [qr[q]])
            for _ in range(reps):
                circ.barrier(qr[q])
                circ.append(U2Gate(0.0, 0.0), [qr[q]])
        measure_all(circ, qr, cr, qubits)
        circuits.append(circ)
    return circuits, xdata


@of('anglecal_1Q_circuits')
def anglecal_1Q_circuits(max_reps, qubits, angleerr=0.0):
    """Y90, then repetitions of X90 X90 Y90 Y90, then X90."""
    qr = qiskit.QuantumRegister(max(qubits) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for i, reps in enumerate(np.arange(max_reps)):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 'anglecal1Qcircuit_%d_0' % i
        for q in qubits:
            circ.append(U2Gate(0.0, 0.0), [qr[q]])
            for _ in range(reps):
                if angleerr != 0:
                    circ.append(U1Gate(-2*angleerr), [qr[q]])
                for _ in range(2):
                    circ.barrier(qr[q])
                    circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[q]])
                if angleerr != 0:
                    circ.append(U1Gate(2*angleerr), [qr[q]])
                for _ in range(2):
                    circ.barrier(qr[q])
                    circ.append(U2Gate(0.0, 0.0), [qr[q]])
            if angleerr != 0:
                circ.append(U1Gate(-angleerr), [qr[q]])
            circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[q]])
        measure_all(circ, qr, cr, qubits)
        circuits.append(circ)
    return circuits, 2*np.arange(max_reps)


@of('ampcal_cx_circuits')
def ampcal_cx_circuits(max_reps, qubits, control_qubits):
    """Control excited, X90 on the target, then repeated CX."""
    qr = qiskit.QuantumRegister(max([max(qubits), max(control_qubits)]) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for i, reps in enumerate(np.arange(max_reps)):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 'ampcalcxcircuit_%d_0' % i
        for k, q in enumerate(qubits):
            circ.x(qr[control_qubits[k]])
            circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[q]])
            for _ in range(reps):
                circ.barrier([qr[control_qubits[k]], qr[q]])
                circ.cx(qr[control_qubits[k]], qr[q])
        measure_all(circ, qr, cr, qubits)
        circuits.append(circ)
    return circuits, np.arange(max_reps)


@of('anglecal_cx_circuits')
def anglecal_cx_circuits(max_reps, qubits, control_qubits, angleerr=0.0):
    """Control excited, Y90 on the target, repetitions of CX and Y, then X90."""
    qr = qiskit.QuantumRegister(max([max(qubits), max(control_qubits)]) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for i, reps in enumerate(np.arange(max_reps)):
        circ = qiskit.QuantumCircuit(qr, cr)
        circ.name = 'anglecalcxcircuit_%d_0' % i
        for k, q in enumerate(qubits):
            circ.x(qr[control_qubits[k]])
            circ.append(U2Gate(0.0, 0.0), [qr[q]])
            for _ in range(reps):
                if angleerr != 0:
                    circ.append(U1Gate(-angleerr), [qr[q]])
                circ.barrier([qr[control_qubits[k]], qr[q]])
                circ.cx(qr[control_qubits[k]], qr[q])
                if angleerr != 0:
                    circ.append(U1Gate(angleerr), [qr[q]])
                circ.y(qr[q])
            circ.append(U2Gate(-np.pi/2, np.pi/2), [qr[q]])
        measure_all(circ, qr, cr, qubits)
        circuits.append(circ)
    return circuits, np.arange(max_reps)


@of('zz_circuits')
def zz_circuits(num_of_gates, gate_time, qubits, spectators, nosc=5):
    """Ramsey on the qubits with the spectators in 0 (series 0) and 1 (series 1)."""
    if len(qubits) != len(spectators):
        raise ValueError
    for q in qubits:
        if q in spectators:
            raise ValueError
    xdata = gate_time*np.array(num_of_gates)
    f = nosc/xdata[-1]
    qr = qiskit.QuantumRegister(max([max(qubits), max(spectators)]) + 1)
    cr = qiskit.ClassicalRegister(len(qubits))
    circuits = []
    for flip in [False, True]:
        for i, n in enumerate(num_of_gates):
            circ = qiskit.QuantumCircuit(qr, cr)
            circ.name = 'zzcircuit_%d_%d' % (i, flip)
            for s in spectators:
                if flip:
                    circ.x(qr[s])
            circ.barrier(qr)
            for q in qubits:
                circ.h(qr[q])
                idle(circ, qr[q], n)
                circ.append(U1Gate(2*np.pi*f*xdata[i]), [qr[q]])
                circ.h(qr[q])
            circ.barrier(qr)
            measure_all(circ, qr, cr, qubits)
            circuits.append(circ)
    return circuits, xdata, f


@of('rabi_schedules')
def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None, width_sigma_ratio=4,
                   drives=None, inst_map=None, meas_map=None):
    """One Gaussian pulse of each amplitude on every qubit, then measure."""
    imap = copy.deepcopy(inst_map)
    if imap is None or meas_map is None:
        raise ValueError
    s = pulse_width/width_sigma_ratio if pulse_sigma is None else pulse_sigma
    out = []
    for i in range(len(amp_list)):
        p = pulse_lib.gaussian(duration=pulse_width, amp=amp_list[i], sigma=s,
                               name='rabi_pulse_%d' % i)
        sched = pulse.Schedule(name='rabisched_%d_0' % i)
        for q in qubits:
            sched += pulse.Play(p, drives[q])
        sched += measure(qubits, inst_map=imap, meas_map=meas_map).shift(pulse_width)
        out.append(sched)
    return out, amp_list


@of('drag_schedules')
def drag_schedules(beta_list, qubits, pulse_amp, pulse_width, pulse_sigma=None,
                   width_sigma_ratio=4, drives=None, inst_map=None, meas_map=None):
    """A pulse and its inverse with each beta on every qubit, then measure."""
    imap = copy.deepcopy(inst_map)
    if imap is None or meas_map is None:
        raise ValueError
    s = pulse_width/width_sigma_ratio if pulse_sigma is None else pulse_sigma
    out = []
    for i in range(len(beta_list)):
        sched = pulse.Schedule(name='dragsched_%d_0' % i)
        for k, q in enumerate(qubits):
            sched += pulse.Play(pulse_lib.drag(
                duration=pulse_width, amp=pulse_amp[k], beta=beta_list[i], sigma=s,
                name='drag_pulse_%d_%d' % (i, q)), drives[q])
            sched += pulse.Play(pulse_lib.drag(
                duration=pulse_width, amp=-pulse_amp[k], beta=beta_list[i], sigma=s,
                name='drag_pulse_%d_%d' % (i, q)), drives[q])
        sched += measure(qubits, inst_map=imap, meas_map=meas_map).shift(2*pulse_width)
        out.append(sched)
    return out, beta_list


@of('ibmq_utils._fit_drag_func')
def fit_drag(duration, amp, sigma, beta, exp_samples):
    p = pulse_lib.drag(duration=duration, amp=amp, sigma=sigma, beta=beta).samples
    p = p*np.exp(-1j*np.pi/2)
    return np.concatenate((p.real, p.imag)) - exp_samples


@of('ibmq_utils.get_single_q_pulse')
def get_single_q_pulse(inst_map, qubits):
    fit_params = []
    for q in qubits:
        u2_q = inst_map.get('u2', qubits=q, P0=1, P1=1)
        for _, instr in u2_q.instructions:
            if isinstance(instr, Play):
                samples = instr.pulse.samples
                dur = len(samples)
                top = np.max(np.abs(samples))
                samples = np.concatenate((samples.real, samples.imag))
                break

        def res(x):
            return _fit_drag_func(dur, x[0], x[1], x[2], samples)
        fit = least_squares(res, [top, dur/4, top/5]).x
        fit_params.append({'amp': fit[0], 'duration': dur, 'sigma': fit[1], 'beta': fit[2]})
    return fit_params


def shift_phase(kw_name, phi0, chan, t):
    def f(**kwargs):
        return ShiftPhase(phase=-kwargs[kw_name] + phi0, channel=chan).shift(t)
    return f


@of('ibmq_utils.update_u_gates', no_inline=('_find_channel_groups',))
def update_u_gates(drag_params, pi2_pulse_schedules=None, qubits=None, inst_map=None, drives=None):
    for q in qubits:
        d = drives[q]
        if pi2_pulse_schedules is None:
            x90 = Schedule()
            x90 += Play(pulse_lib.drag(**drag_params[q]), d).shift(0)
        else:
            x90 = pi2_pulse_schedules[q]
        dur = x90.duration
        for g2 in _find_channel_groups('u2', qubits=q, inst_map=inst_map):
            if d in g2:
                break
        else:
            g2 = (d,)
        for g3 in _find_channel_groups('u3', qubits=q, inst_map=inst_map):
            if d in g3:
                break
        else:
            g3 = (d,)
        u2 = ParameterizedSchedule(*[
            *[shift_phase('P1', np.pi/2, c, 0) for c in g2], x90,
            *[shift_phase('P0', -np.pi/2, c, dur) for c in g2]],
            parameters=['P0', 'P1'], name='u2_%d' % q)
        u3 = ParameterizedSchedule(*[
            *[shift_phase('P2', 0, c, 0) for c in g3], x90,
            *[shift_phase('P0', -np.pi, c, dur) for c in g3], x90.shift(dur),
            *[shift_phase('P1', np.pi, c, 2*dur) for c in g3]],
            parameters=['P0', 'P1', 'P2'], name='u3_%d' % q)
        inst_map.add('u2', qubits=q, schedule=u2)
        inst_map.add('u3', qubits=q, schedule=u3)
