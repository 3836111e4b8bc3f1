import copy
import qiskit.pulse as pulse
import qiskit.pulse.library as pulse_lib
from qiskit.exceptions import QiskitError
from qiskit.pulse.macros import measure

def rabi_schedules(amp_list, qubits, pulse_width, pulse_sigma=None, width_sigma_ratio=4, drives=None, inst_map=None, meas_map=None):
    xdata = amp_list
    inst_map = copy.deepcopy(inst_map)
    if inst_map is None:
        raise QiskitError('Instruction schedule map is not provided. ', 'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
    if meas_map is None:
        raise QiskitError('Measurement map is not provided. ', 'Run `backend.configuration().meas_map` to get meas_map.')
    if pulse_sigma is None:
        pulse_sigma = pulse_width / width_sigma_ratio
    rabi_scheds = []
    for index, g_amp in enumerate(amp_list):
        rabi_pulse = pulse_lib.gaussian(duration=pulse_width, amp=g_amp, sigma=pulse_sigma, name='rabi_pulse_%d' % index)
        sched = pulse.Schedule(name='rabisched_%d_0' % index)
        for qubit in qubits:
            sched += pulse.Play(rabi_pulse, drives[qubit])
        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(pulse_width)
        rabi_scheds.append(sched)
    return (rabi_scheds, xdata)

def drag_schedules(beta_list, qubits, pulse_amp, pulse_width, pulse_sigma=None, width_sigma_ratio=4, drives=None, inst_map=None, meas_map=None):
    xdata = beta_list
    inst_map = copy.deepcopy(inst_map)
    if inst_map is None:
        raise QiskitError('Instruction schedule map is not provided. ', 'Run `backend.defaults().instruction_schedule_map` to get inst_map.')
    if meas_map is None:
        raise QiskitError('Measurement map is not provided. ', 'Run `backend.configuration().meas_map` to get meas_map.')
    if pulse_sigma is None:
        pulse_sigma = pulse_width / width_sigma_ratio
    drag_scheds = []
    for index, b_amp in enumerate(beta_list):
        sched = pulse.Schedule(name='dragsched_%d_0' % index)
        for qind, qubit in enumerate(qubits):
            drag_pulse_p = pulse_lib.drag(duration=pulse_width, amp=pulse_amp[qind], beta=b_amp, sigma=pulse_sigma, name='drag_pulse_%d_%d' % (index, qubit))
            drag_pulse_m = pulse_lib.drag(duration=pulse_width, amp=-pulse_amp[qind], beta=b_amp, sigma=pulse_sigma, name='drag_pulse_%d_%d' % (index, qubit))
            sched += pulse.Play(drag_pulse_p, drives[qubit])
            sched += pulse.Play(drag_pulse_m, drives[qubit])
        sched += measure(qubits, inst_map=inst_map, meas_map=meas_map).shift(2 * pulse_width)
        drag_scheds.append(sched)
    return (drag_scheds, xdata)
