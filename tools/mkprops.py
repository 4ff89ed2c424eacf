import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(title,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
C='dsptoolbox/classes/'
p('C01','Real-time filters: each channel is its own stream, however calls interleave',
 'For every sample-by-sample real-time filter (IIR, FIR, state-space, state-variable, lattice/ladder, warped FIR/IIR, parallel, Kautz, exponential average, and chains of them) the outputs returned for one channel are exactly the response of the filter to the samples pushed into that channel since the filter was created, last reset or last given a channel count. Samples pushed into other channels, into other instances, offline use of the same object that is documented or built to leave the stream alone, and the order in which channels are served never change them. After a reset the filter behaves like a new one.',
 ['schedules','histories'],'all interleavings of per-channel sample pushes, resets, channel-count changes, offline queries and several live instances, over random coefficients and orders',
 'The tests push one sequential impulse or noise burst through a fresh single-channel filter and compare with scipy; they never interleave channels, reset mid-stream, use several instances or mix in offline calls.',
 [C+f for f in ('iir_filter_realtime.py','fir_filter_realtime.py','state_space_filter.py','sv_filter.py','lattice_ladder_filter.py','warped_filters.py','parallel_filter.py','kautz_filter.py','exponential_average_filter.py','filter_chain.py')],
 [('per-channel state column','process_sample of every RealtimeFilter'),('reset_state / set_n_channels','all real-time filter classes')],
 [('state/x/buffer','delay-line content per channel','real-time filter classes')],['return values of process_sample'])
p('C02','Block convolution filters equal linear convolution for any block schedule',
 'The block-based FIR engines (overlap-save, uniformly partitioned, and multichannel uniformly partitioned) produce, block after block, exactly the linear convolution of everything fed to a channel since preparation or reset with that channel\'s filter. This holds for every filter length, block size and channel count, for every order in which channels are served, and also when one channel runs ahead of or behind the others, is reset, or the engine is prepared again with another block size.',
 ['schedules','configurations'],'block size x filter length x channel count x order of per-channel blocks x resets and re-preparations',
 'The tests use one channel order, one or two block sizes and a handful of blocks; FFT-size parity, partition boundaries and shared ring indices only matter for other combinations.',
 [C+'fir_filter_realtime.py'],[('overlap-save buffer','FIRFilterOverlapSave.process_block'),('partition ring buffer','FIRUniformPartitioned.process_block'),('multichannel ring buffer','FIRUniformPartitionedMultichannel.process_block')],
 [('buffer / buffer_spectra / buffer_ind','input history','fir_filter_realtime.py')],['return values of process_block'])
p('C03','Stateful chunked filtering equals filtering the whole signal at once',
 'Filtering a signal in consecutive chunks with filter state enabled gives the same samples as filtering the whole signal in one stateful call from the same initial state, for single filters of every coefficient form, for filter banks in every mode and for Linkwitz-Riley banks, however the signal is cut and whatever number of channels it has. Stateless calls made in between (plain or zero-phase filtering, impulse responses, transfer functions, coefficient queries, restricted-channel calls on other filters) do not disturb the running state, and re-initialising the state restarts the stream.',
 ['schedules','histories'],'all ways of cutting a signal into chunks, channel counts, filter structures, and interleaved stateless calls / re-initialisations',
 'Tests call stateful filtering at most once per object, so carrying the state from one call to the next is not exercised at all.',
 [C+'filter.py',C+'filter_helpers.py',C+'filterbank.py','dsptoolbox/filterbanks/_filterbank.py'],
 [('zi hand-over','filter_helpers._filter_on_signal / _filter_on_signal_ba / _lfilter_fir'),('bank-level zi','FilterBank.filter_signal / filter_multiband_signal'),('crossover zi','LRFilterBank.filter_signal')],
 [('zi','filter memory per channel','Filter.zi'),('channels_zi','crossover memory per channel','LRFilterBank.channels_zi')],['time data of the returned signals'])
p('C04','Checkpoint and restart: a saved object continues exactly where it was',
 'Any signal, impulse response, spectrum, multiband signal, filter (including its running filter state) or filter bank that was saved and loaded again, at any point of its life, behaves from then on exactly like the original: same data, parameters, metadata and results of every query, and a stream interrupted by a process crash and resumed from the checkpoint gives the same samples as an uninterrupted one. Audio files written in wav or flac format return the stored samples within the precision of the chosen bit depth, with the same sampling rate, channel order and length. Saving never changes the object that is saved.',
 ['crash_points','histories'],'every point of a random operation history at which the process crashes and is restarted from the last checkpoint, for every savable class and format',
 'Tests save once a fresh object and at most compare the loaded array; they never restart in the middle of a stream or after cache, window or state changes.',
 [C+'signal.py',C+'filter.py',C+'filterbank.py',C+'multibandsignal.py',C+'spectrum.py','dsptoolbox/filterbanks/_filterbank.py','dsptoolbox/standard/other.py','dsptoolbox/helpers/other.py'],
 [('pickle save','save_signal/save_filter/save_filterbank/save_spectrum'),('load','load_pkl_object'),('audio file save/load','Signal.save_signal, Signal.from_file')],
 [],['loaded object','files on disk'])
p('C05','Saving to a failing disk is never silently wrong',
 'When the disk fails during a save or load (full disk, I/O error on open, write, flush, close or read, short writes or reads, interrupted system calls, process crash mid-write), either the call raises, or it really succeeded and loading returns an object equal to the one saved. Loading a truncated or torn pickle never returns an object different from the saved one without raising, the in-memory object survives unchanged and can be saved again once the fault is gone, and no file other than the named target is touched or left behind.',
 ['fault_sequences','crash_points'],'all sequences of saves and loads of all savable classes with disk faults at arbitrary byte offsets and call sites',
 'Tests only save to a healthy disk.',
 [C+'signal.py',C+'filter.py',C+'filterbank.py',C+'multibandsignal.py',C+'spectrum.py','dsptoolbox/filterbanks/_filterbank.py','dsptoolbox/standard/other.py','dsptoolbox/helpers/other.py'],
 [('with open(...) + dump','all save_* methods'),('format check','_check_format_in_path'),('sf.write','Signal.save_signal')],[],['exceptions, files on disk, loaded object'])
p('C06','Cached spectral and time data are never stale',
 'With the cache of a signal switched on, off, or toggled at any time, every spectrum, cross-spectral matrix, spectrogram and time vector it returns equals what a newly built signal with the same data and settings returns, after any history of data changes, channel edits, parameter changes, plots, copies and failed operations. Modifying a returned array never changes later answers.',
 ['histories','fault_sequences'],'all histories of setters, queries, plots, channel edits, copies and failing computations on a signal, with cache on/off/toggled',
 'Tests query each spectrum once or twice with default caching (off); invalidation paths between different setters and queries are not explored.',
 [C+'signal.py',C+'impulse_response.py',C+'_multichannel_data.py'],
 [('dirty flags','Signal.__update_state and the parameter setters'),('cache read/write','get_spectrum, get_csm, get_spectrogram, time_vector_s'),('parameter save/restore around plots','plot_magnitude, plot_phase, plot_group_delay')],
 [('spectrum, csm, spectrogram','cached results','Signal'),('_spectrum_parameters','settings in force','Signal')],['return values of the getters'])
p('C07','An operation that fails part-way leaves its operands intact and retryable',
 'If a library call fails - because an argument is rejected or because a numerical, allocation or I/O call inside it fails at any point - then every object passed to it, and the object it was called on, shows the same data and settings as before the call (in-place editing operations: either the state before or the state after, never a mixture), and its reported sizes, rates and channel counts stay consistent with its data. Repeating the call once the cause is gone gives the result it would have given without the failure.',
 ['fault_sequences','crash_points'],'every library operation on shared operands x every internal external-library call at which a failure can be injected x rejected arguments',
 'Tests only run the success path, plus a few immediate argument rejections whose after-effects are not examined.',
 ['dsptoolbox/'],[('temporary parameter change and restore','Signal.get_csm, plot_*, analysis functions'),('validate before assigning','MultiBandSignal.bands, FilterBank.filters, Spectrum setters, Signal.time_data')],
 [],['operand state after the exception','result of the retry'])
p('C08','Analysis calls do not disturb each other, in any order or interleaving',
 'Library functions and queries that return a new result never change the signals, spectra, filters, filter banks and arrays given to them, nor any hidden library state that later calls depend on. Therefore any set of such calls on shared operands gives each caller the result it would get alone on fresh operands, whatever the order of the calls and however the calls of several caller threads interleave.',
 ['schedules','histories'],'all orders and thread interleavings of read-only library calls over shared operands, for the whole public function surface',
 'Tests call each function once on its own input and look only at the output; inputs are rarely compared afterwards and never shared between threads.',
 ['dsptoolbox/'],[('copy-on-derive','copy_with_new_time_data and explicit copies in module functions'),('no hidden module state','all modules')],[],['results and operands'])
p('C09','Channel, band and filter containers follow a simple list model',
 'Through any history of adding, removing, inserting, swapping, selecting, summing and collapsing, a multichannel signal, a spectrum, a multiband signal and a filter bank contain exactly the channels, bands or filters that a plain list subjected to the same edits would contain, in the same order and with the same sample values, coefficients and rates; counts, lengths, rates, iteration and metadata always agree with that list. Edits that are rejected change nothing.',
 ['histories'],'all sequences of container edits including rejected ones, real and complex data, equal and mixed sampling rates',
 'Tests perform one or two edits per container from a fixed starting point.',
 [C+'_multichannel_data.py',C+'signal.py',C+'spectrum.py',C+'multibandsignal.py',C+'filterbank.py'],
 [('channel edits','MultichannelData'),('band edits and checks','MultiBandSignal.bands setter, add/remove/swap'),('filter edits and checks','FilterBank.filters setter, add/remove/swap')],[],['container content and metadata'])
p('C10','Copies and derived objects are isolated from their source',
 'After copying a signal, spectrum, filter, filter bank or multiband signal, or deriving a new object from it with a library function, any later change to one of them - in-place edits, new data, parameter changes, stateful filtering, or writing into the arrays obtained from it - is never visible in the other. Arrays handed over by a caller are not modified by the library.',
 ['histories'],'all interleaved histories on an object, its copies, derived objects and the arrays handed in',
 'Tests check the derived value once and then drop it; interleaved later edits of source and derivative are not exercised.',
 [C+'signal.py',C+'spectrum.py',C+'multibandsignal.py',C+'filterbank.py',C+'filter.py','dsptoolbox/standard/'],
 [('deepcopy','copy methods'),('copy of array views','copy_with_new_time_data, get_channels, get_coefficients')],[],['objects after edits of their relatives'])
p('C11','Results are reproducible: seeded randomness only, same in every process',
 'With the same seed of the global numpy generator, every random function returns the same result regardless of what was computed before, in which process or with which hash seed it runs; functions that are not documented as random neither depend on nor consume that generator. Randomly generated signals satisfy their documented properties (length, channel count, sampling rate, peak level, fades, finite values) for every draw of the generator.',
 ['schedules','configurations'],'all generator seeds and adversarial draw sequences, call orders and interpreter hash seeds',
 'Tests draw a few unseeded samples and check shapes; they neither compare processes or hash seeds nor steer the generator.',
 ['dsptoolbox/generators/','dsptoolbox/effects/_effects.py','dsptoolbox/standard/other.py','dsptoolbox/transforms/transforms.py','dsptoolbox/room_acoustics/','dsptoolbox/'],
 [('global numpy generator','np.random calls in noise, dither, LFO, lpc, room acoustics'),('ordered metadata','FilterBank.metadata')],[],['results under a simulated generator and in several interpreters'])
p('C12','Audio playback and recording deliver the right samples or raise',
 'Playing sends exactly the requested part of each channel of the signal, at the requested peak level and sampling rate, to the requested output channel; recording returns exactly what the selected inputs delivered for the requested duration as a signal with one channel per input, for integer and fractional durations; combined playback and recording does both. If the device fails, disappears, or is not found, the call raises and returns no data, the signal handed in is unchanged, and the next call on a healthy device works; a stop requested from a stream callback stops the stream.',
 ['fault_sequences','schedules'],'all device configurations, channel maps, durations, block schedules and device faults of a simulated sound card',
 'The test suite has no audio hardware: it only lists devices and selects device 0.',
 ['dsptoolbox/audio_io/audio_io.py'],[('channel mapping and normalisation','play, record, play_and_record'),('device selection','set_device'),('stream wrapper','output_stream, CallbackStop, sleep')],
 [('sounddevice defaults','global device selection','sounddevice.default')],['samples reaching the simulated converter, returned signals'])
p('C13','Reusable processors keep no memory between independent uses',
 'An effect, low-frequency oscillator, beamformer, microphone array, calibration object, designer or other configured processor gives, for a given input, the same result as a newly configured one, no matter which other inputs it processed before, whether an earlier use failed, or how uses by several caller threads interleave. Changing a parameter takes effect completely for later uses and leaves all other parameters as they were. Results belong to the caller: writing into one never changes what later uses give.',
 ['histories','schedules'],'all histories and thread interleavings of uses, parameter changes and failed uses of one configured object',
 'Tests configure an object, use it once and discard it.',
 ['dsptoolbox/effects/effects.py','dsptoolbox/effects/_effects.py','dsptoolbox/beamforming/','dsptoolbox/classes/calibration_data.py','dsptoolbox/classes/group_delay_designer_phase_linearizer.py','dsptoolbox/room_acoustics/'],
 [('per-use state','AudioEffect._save_peak_values/_save_rms_values and effect parameters')],[('_peak_values, _rms_values','left over from the last use','AudioEffect')],['results of apply and similar methods'])
p('C14','Channels of one real-time filter may be served by different threads',
 'When several threads serve different channels of the same real-time filter or filter chain at the same time, each channel receives exactly the response to its own samples, for every interleaving of the threads.',
 ['schedules'],'all interleavings of concurrent per-channel processing of shared filter objects',
 'No test uses threads; an audio host that splits channels over worker threads depends on it.',
 [C+f for f in ('realtime_filter.py','iir_filter_realtime.py','fir_filter_realtime.py','state_space_filter.py','sv_filter.py','lattice_ladder_filter.py','warped_filters.py','parallel_filter.py','kautz_filter.py','exponential_average_filter.py','filter_chain.py')],
 [('disjoint per-channel state','process_sample / process_block')],[],['return values per channel'])
NA=[('C15','Transforms, windows and spectra satisfy their identities','Forward and inverse transforms are inverses within rounding, spectrum scalings are energy-consistent and smoothing and windows have their documented normalisation, for every input.',['dsptoolbox/transforms/','dsptoolbox/standard/','dsptoolbox/helpers/']),
('C16','Crossovers, filter banks and designed filters meet their specification','Filter designs meet their pass, stop and gain specification and complementary filter banks reconstruct their input, for every valid parameter set.',['dsptoolbox/filterbanks/','dsptoolbox/classes/filter.py']),
('C17','System identification recovers the system','Deconvolution, transfer function estimation, windowing, latency and minimum-phase tools recover the known system from its noiseless input and output, for every system and excitation.',['dsptoolbox/transfer_functions/','dsptoolbox/standard/latency_delay.py']),
('C18','Room acoustic and distance measures match their definitions','Reverberation times, room descriptors, level and distance measures equal their mathematical definition for every input for which they are defined.',['dsptoolbox/room_acoustics/','dsptoolbox/distances/','dsptoolbox/beamforming/'])]
for i,t,s,f in NA:
    p(i,t,s,['inputs'],'all valid inputs and parameters','Tests sample a few inputs; the statement quantifies over all of them.',f,[('pure numerical functions',f[0])])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
